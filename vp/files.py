"""Writing benchmark files as text in many valid spellings, together with the instance they describe."""
import os

from .inst import INF, Inst, S, T, V, dist

REPO = os.environ.get("VP_REPO", "/repo")


class Loaded:
    """The library's objects as a loader delivered them, addressed like `inst.Built`."""

    def __init__(self, jit, inst, loader, order=("surface", "fleet", "job")):
        self.jit, self.inst = jit, inst
        got = {}
        for name in order:
            got[name] = getattr(loader, name)
        self.surface, self.fleet, self.job = got["surface"], got["fleet"], got["job"]
        self.vehicles = {v.identifier: v for v in self.fleet.vehicles}
        self.trips = {t.identifier: t for t in self.job.trips}
        self.objective_cls = type(self.job.objective)

    def pos(self, xy):
        return self.surface.get_or_create_position(list(xy))


def number(rng, x, plain=False):
    """One spelling of a number that reads back as exactly the same."""
    x = float(x)
    options = [repr(x)]
    if x == int(x) and abs(x) < 1e15:
        options += [str(int(x))] * (10 if plain else 3)
    if not plain:
        options += [f"{x:.17g}", f"{x:.17e}"]
        if x > 0 and rng.random() < 0.05:
            options.append("+" + repr(x))
    return rng.choice(options)


def line(rng, values, plain=False):
    sep = " " if plain else rng.choice((" ", " ", "\t", "   ", " \t"))
    out = sep.join(number(rng, v, plain) for v in values)
    if not plain and rng.random() < 0.3:
        out = rng.choice(("  ", "\t")) + out
    if not plain and rng.random() < 0.3:
        out += rng.choice(("  ", " \t"))
    return out


def text(rng, rows, plain=False):
    eol = "\n" if plain else rng.choice(("\n", "\n", "\r\n"))
    return eol.join(line(rng, r, plain) for r in rows) + rng.choice(("", eol))


def cordeau(rng, n=None, m=None):
    """A Cordeau & Laporte file: (rows, the instance it states)."""
    n = rng.choice((1, 1, 2, 3, 5, 8, 12)) if n is None else n
    m = rng.choice((1, 2, 3, 5)) if m is None else m
    horizon = rng.choice((240.0, 480.0, 1440.0))
    tour = rng.choice((horizon, horizon / 2, 97.5, 480.0))
    cap = float(rng.choice((1, 2, 3, 6, 10)))
    ride = rng.choice((30.0, 45.5, 60.0, 90.0))
    side = rng.choice((10.0, 10.0, 3.0, 200.0))

    def xy():
        if rng.random() < 0.2:
            return float(rng.randint(-3, 3)), float(rng.randint(-3, 3))
        return round(rng.uniform(-side, side), 3), round(rng.uniform(-side, side), 3)

    def window():
        kind = rng.random()
        if kind < 0.4:
            return 0.0, rng.choice((1440.0, horizon))
        a = round(rng.uniform(0, horizon * 0.7), rng.choice((0, 2)))
        return a, a + rng.choice((0.0, 10.0, 15.0, 60.5))

    # 0 earliest is usual for the depot, but not required
    de = rng.choice((0.0, 0.0, 0.0, 25.0, 60.5))
    depot = (*xy(), 0.0, 0.0, de, de + rng.choice((horizon, horizon, 33.0)))
    pickups, deliveries = [], []
    pd, dd = rng.choice((0.0, 3.0, 10.0)), rng.choice((0.0, 3.0, 7.5))
    repeats = rng.random() < 0.2
    for _ in range(n):
        if repeats and pickups and rng.random() < 0.5:
            k = rng.randrange(len(pickups))
            pickups.append(pickups[k])
            deliveries.append(deliveries[k])
            continue
        q = float(rng.choice((0, 1, 1, 1, 2, 3)))
        varied = rng.random() < 0.3
        pickups.append((*xy(), rng.choice((0.0, 4.0, 11.25)) if varied else pd, q, *window()))
        deliveries.append((*xy(), rng.choice((0.0, 2.0, 6.5)) if varied else dd, -q, *window()))
    rows = [(m, 2 * n, tour, cap, ride), (0, *depot)]
    rows += [(k + 1, *r) for k, r in enumerate(pickups)]
    rows += [(k + 1 + n, *r) for k, r in enumerate(deliveries)]

    def svc(r):
        return S(r[0], r[1], r[4], r[5], r[2])

    trips = [T(str(k + 1), svc(p), svc(d), p[3], ride) for k, (p, d) in enumerate(zip(pickups, deliveries))]
    vehicles = [V(str(k), svc(depot), None, cap, tour) for k in range(m)]
    if rng.random() < 0.15:
        rows.append((2 * n + 1, *depot))  # some distributions repeat the depot at the end
    return rows, Inst("EUCLIDEAN", vehicles, trips, "DialARide", ["cordeau-file"])


def hashcode(rng, n=None, m=None, roomy=False):
    """A HashCode 2018 file: (rows, the instance it states)."""
    n = rng.choice((0, 1, 2, 3, 6, 12, 25)) if n is None else n
    m = rng.choice((1, 2, 3, 8)) if m is None else m
    r, c = rng.choice(((3, 4), (4, 4), (6, 5), (10, 10), (10, 4), (40, 30), (1000, 100)))
    bonus = rng.choice((0, 1, 2, 25, 1000))
    t = rng.choice((10, 60, 60, 200, 200, 5000)) + r
    loose = rng.choice(((0, 0, 2, 20), (0, 2, 20, 60), (20, 60, 200)))
    if roomy:
        r, c = rng.choice(((4, 4), (10, 10), (30, 10), (40, 30)))
        bonus, t, loose = rng.choice((0, 1, 1, 2)), rng.choice((100, 200, 300)), (20, 60, 200)
    rides = []
    repeats = rng.random() < 0.3  # several passengers may ask for exactly the same
    for _ in range(n):
        if repeats and rides and rng.random() < 0.5:
            rides.append(rng.choice(rides))
            continue
        a, b = rng.randrange(r), rng.randrange(c)
        x, y = rng.randrange(r), rng.randrange(c)
        while (x, y) == (a, b):
            x, y = rng.randrange(r), rng.randrange(c)
        e = rng.randrange(max(1, int(t * 0.8)))
        f = min(t, e + abs(a - x) + abs(b - y) + rng.choice(loose))
        rides.append((a, b, x, y, e, max(f, e)))
    rows = [(r, c, m, n, bonus, t)] + rides
    trips = [
        T(str(k), S(float(a), float(b), float(e)), S(float(x), float(y), 0.0, float(f)), 1, INF, float(bonus))
        for k, (a, b, x, y, e, f) in enumerate(rides)
    ]
    vehicles = [V(str(k), S(0.0, 0.0, 0.0, float(t)), None, 1.0) for k in range(m)]
    return rows, Inst("MANHATTAN", vehicles, trips, "HashCode", ["hashcode-file"])


def official_score(rows, submission):
    """The HashCode 2018 judge: score of a submission, or the reason it is invalid."""
    r, c, f, n, bonus, t = (int(x) for x in rows[0])
    rides = rows[1:]
    score = 0
    taken = set()
    lines = submission.split("\n")
    if lines and lines[-1] == "":
        lines = lines[:-1]
    if len(lines) > f:
        return None, f"{len(lines)} lines for {f} vehicles"
    for k, text_line in enumerate(lines):
        parts = text_line.split()
        if not parts or not all(p.isdigit() for p in parts):
            return None, f"line {k} is not a list of numbers: {text_line!r}"
        if int(parts[0]) != len(parts) - 1:
            return None, f"line {k} announces {parts[0]} rides and lists {len(parts) - 1}"
        x, y, now = 0, 0, 0
        for p in parts[1:]:
            p = int(p)
            if not p < n:
                return None, f"ride {p} does not exist"
            if p in taken:
                return None, f"ride {p} is assigned twice"
            taken.add(p)
            a, b, u, v, e, l = (int(z) for z in rides[p])
            now += abs(a - x) + abs(b - y)
            start = max(now, e)
            length = abs(a - u) + abs(b - v)
            now = start + length
            x, y = u, v
            if now <= l and now <= t:
                score += length
                if start == e:
                    score += bonus
    return score, None


def parse_cordeau(rows):
    m, nn, tour, cap, ride = rows[0][:5]
    n = int(nn) // 2

    def svc(r):
        return S(r[1], r[2], r[5], r[6], r[3])

    depot = svc(rows[1])
    trips = [T(str(k + 1), svc(rows[2 + k]), svc(rows[2 + n + k]), rows[2 + k][4], ride) for k in range(n)]
    return Inst("EUCLIDEAN", [V(str(k), depot, None, cap, tour) for k in range(int(m))], trips, "DialARide", ["cordeau-file"])


def parse_hashcode(rows):
    m, bonus, t = int(rows[0][2]), rows[0][4], rows[0][5]
    trips = [
        T(str(k), S(r[0], r[1], r[4]), S(r[2], r[3], 0.0, r[5]), 1, INF, bonus) for k, r in enumerate(rows[1:])
    ]
    return Inst("MANHATTAN", [V(str(k), S(0.0, 0.0, 0.0, t), None, 1.0) for k in range(m)], trips, "HashCode", ["hashcode-file"])


def dataset(rng, family):
    """A benchmark file shipped with the repository: (path, rows, instance), or None."""
    import pathlib

    root = pathlib.Path(REPO) / "res" / "datasets" / family
    if not root.is_dir():
        return None
    names = sorted(p for p in root.iterdir() if p.suffix in (".txt", ".in") and p.stat().st_size < 40000)
    if not names:
        return None
    path = rng.choice(names)
    rows = [[float(x) for x in line.split()] for line in path.read_text().splitlines() if line.strip()]
    return path, rows, (parse_cordeau if family == "cordeau-laporte" else parse_hashcode)(rows)
