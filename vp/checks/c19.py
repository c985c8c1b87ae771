"""Distances and travel times are the metric's, whatever was asked before and by whom."""
import copy
import sys
import threading

from .. import gen, observe, oracle
from ..inst import Built, dist
from ..oracle import close

CASES = dict(quick=4000, thorough=60000)
REQUIRED = {"given_places": 4000, "queries": 300000, "repeated": 5000, "triangles": 15000, "threads": 150, "colliding_hashes": 500, "dimensions_1": 60,
            "dimensions_3": 60, "crowded_surfaces": 15, "plans": 200, "surfaces_side_by_side": 200, "coincident": 2000}
RULE = (
    "case = a history of distance and time questions between places of one or several surfaces (1 to 4 dimensions, equal hashes, "
    "places closer than any rounding, whole numbers and decimals, many places, several threads at once, copies) and through the "
    "requests, services and plans built on them; every answer is compared with the metric's definition; distinct = by the places"
)


def coordinate(rng, style):
    if style == "colliding":
        return float(rng.choice((-1, -2, 0, -1, -2, 2 ** 61 - 1, 1)))
    if style == "integers":
        return rng.randint(-20, 20)
    if style == "mixed":
        return rng.choice((rng.randint(-5, 5), float(rng.randint(-5, 5)), rng.uniform(-5, 5)))
    if style == "close":
        return rng.choice((1.0, 1.0 + 1e-7, 1.0 - 1e-7, 1.0 + 1e-4, 0.9999))
    if style == "huge":
        return rng.uniform(-1e9, 1e9)
    return round(rng.uniform(-100, 100), 3)


def places(rng, style, dim, n):
    return [tuple(coordinate(rng, style) for _ in range(dim)) for _ in range(n)]


class World:
    """A surface, with the positions created on it."""

    def __init__(self, jit, metric, coords, rng):
        self.metric = metric
        self.coords = coords
        surface = getattr(jit.DistanceMetric, metric)
        self.surface = jit.GeometricSurface(surface)
        if rng.random() < 0.2:  # places may also be handed over at once
            self.given = set(self.surface.get_or_create_position(list(c)) for c in coords[: rng.randint(0, len(coords))])
            self.surface = jit.GeometricSurface(surface, positions=set(self.given))
        else:
            self.given = set()
        make = self.surface.get_or_create_position
        # the same place may be created as often as one likes, in any sequence type
        self.pos = [make(rng.choice((list, tuple))(c)) for c in coords]
        self.twin = [make(list(c)) for c in coords]


def expected(metric, a, b):
    return dist(metric, a, b)


def one(ctx, world, a, b, rng):
    """One question asked in one of the possible ways; returns the answer and what it should be."""
    p = rng.choice((world.pos, world.twin))[a]
    q = rng.choice((world.pos, world.twin))[b]
    how = rng.randrange(5)
    if how == 0:
        got = p.distance_to(q)
    elif how == 1:
        got = p.time_to(q)
    elif how == 2:
        got = p.time_to(q, rng.choice((0.0, 17.5, 1e6)))
    elif how == 3:
        got = world.surface.distance(p, q)
    else:
        got = world.surface.time(p, q, now=rng.choice((None, 3.0)))
    return got, expected(world.metric, world.coords[a], world.coords[b]), how


def same(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def questions(ctx, worlds, rng, n, fail):
    for _ in range(n):
        w = rng.choice(worlds)
        a, b = rng.randrange(len(w.coords)), rng.randrange(len(w.coords))
        if rng.random() < 0.1:
            b = a
        got, want, how = one(ctx, w, a, b, rng)
        if not same(got, want):
            fail.append((w.metric, w.coords[a], w.coords[b], ("distance", "time", "time-later", "surface-distance", "surface-time")[how], got, want))
            return


def history(ctx, i, rng):
    jit = ctx.jit
    style = rng.choice(("colliding", "integers", "mixed", "close", "huge", "plain"))
    dim = rng.choice((1, 2, 2, 2, 3, 4))
    crowd = i % 30 == 4
    n = 1500 if crowd else rng.randint(2, 14)
    coords = places(rng, style, dim, n)
    metrics = rng.choice((["EUCLIDEAN"], ["MANHATTAN"], ["EUCLIDEAN", "MANHATTAN"], ["MANHATTAN", "EUCLIDEAN", "EUCLIDEAN"]))
    worlds = [World(jit, m, coords, rng) for m in metrics]
    ctx.note((style, dim, n, metrics))
    fail = []
    total = 4000 if crowd else 150
    questions(ctx, worlds, rng, total, fail)
    ctx.count("queries", total)
    ctx.check(not fail, f"metric:{fail[0][3] if fail else ''}", lambda: f"{style} {fail[0]}")
    if crowd:
        ctx.count("crowded_surfaces")
    if style == "colliding":
        ctx.count("colliding_hashes", n)
    if len(worlds) > 1:
        ctx.count("surfaces_side_by_side")
    ctx.count(f"dimensions_{dim}")
    # the same question again, and the other way round
    w = rng.choice(worlds)
    for _ in range(10):
        a, b, c = (rng.randrange(n) for _ in range(3))
        p, q, r = w.pos[a], w.pos[b], w.pos[c]
        ctx.count("repeated")
        ctx.check(p.distance_to(q) == p.distance_to(q) and same(p.distance_to(q), q.distance_to(p)), "asymmetric", lambda: f"{p} {q}")
        ctx.check(p.distance_to(w.twin[a]) == 0 and p.time_to(w.twin[a]) == 0, "distance-to-itself", lambda: f"{p}")
        ctx.count("coincident")
        ctx.check(p == w.twin[a] and hash(p) == hash(w.twin[a]) and (p == q) == (tuple(w.coords[a]) == tuple(w.coords[b])), "equality", lambda: f"{p} {q}")
        ctx.check(
            p.distance_to(r) <= (p.distance_to(q) + q.distance_to(r)) * (1 + 1e-9) + 1e-9,
            "triangle",
            lambda: f"{p} {q} {r}",
        )
        ctx.count("triangles", 2)
        ctx.check(copy.deepcopy(p).distance_to(copy.deepcopy(q)) == p.distance_to(q), "copies", lambda: f"{p} {q}")
    ctx.check(
        all(len(w.surface.positions) == len({tuple(c) for c in coords}) for w in worlds),
        "places-created-twice",
        lambda: f"{[len(w.surface.positions) for w in worlds]} instead of {len(set(map(tuple, coords)))}",
    )
    ctx.count("given_places", sum(len(w.given) for w in worlds))
    ctx.check(
        all(any(p is q for q in w.surface.positions) for w in worlds if len(w.given) < 20 for p in w.given),
        "given-places-lost",
        lambda: f"{[(len(w.given), len(w.surface.positions)) for w in worlds]}",
    )
    if i % 10 == 7:
        # several threads share the surfaces
        ctx.count("threads")
        fails = [[] for _ in range(4)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            seeds = [rng.randrange(10 ** 9) for _ in fails]

            def work(k):
                import random

                try:
                    questions(ctx, worlds, random.Random(seeds[k]), 150, fails[k])
                except Exception as exc:
                    fails[k].append((type(exc).__name__, str(exc)))

            ts = [threading.Thread(target=work, args=(k,)) for k in range(len(fails))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        ctx.count("queries", 600)
        bad = [f for f in fails if f]
        ctx.check(not bad, "metric:threads", lambda: f"{bad}")
    if n > 2:
        ctx.sig(style, dim, tuple(metrics), coords[:20])
    ctx.sample(dict(style=style, dimensions=dim, surfaces=metrics, places=coords[:4]))


def plans(ctx, i, rng):
    """Distances as they reach requests, services, stops and routes."""
    from .. import build

    inst = gen.instance(rng, rng.choice((1, 2, 3, 5)), rng.choice((1, 2)))
    built = Built(ctx.jit, inst)
    for t in inst.trips:
        trip = built.trips[t.id]
        want = dist(inst.metric, t.o.pos, t.d.pos)
        ctx.check(same(trip.distance, want), "request-distance", lambda: f"{trip.distance} {want}", inst.data())
        ctx.check(
            same(trip.origin.distance_to(trip.destination), want) and same(trip.origin.time_to(trip.destination), want),
            "service-distance",
            lambda: f"{trip.origin.distance_to(trip.destination)} {want}",
            inst.data(),
        )
        ctx.count("queries", 3)
    route, shape, order = build.random_route(ctx.jit, built, rng)
    ctx.count("plans")
    obs = observe.route(route)
    rows = oracle.simulate(inst, obs, [s["start"] for s in obs["stops"]])
    for s, r in zip(route.stops, rows):
        ctx.check(same(s.distance, r["travel"]) and same(s.transit_time, r["travel"]), "leg", lambda: f"{s} {s.distance} {r}", inst.data())
    ctx.check(same(route.distance, oracle.route_distance(inst, obs)), "route-distance", lambda: f"{route.distance}", inst.data())
    ctx.sig(repr(obs))


def case(ctx, i, rng):
    (plans if i // 8 % 3 == 2 else history)(ctx, i, rng)
