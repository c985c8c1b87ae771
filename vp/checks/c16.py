"""What is reported about a solution is what the solution is."""
import contextlib
import io
import pathlib
import re
import tempfile

from .. import build, gen, observe, oracle, report, workload
from ..inst import Built
from ..oracle import close

CASES = dict(quick=1500, thorough=16000)
REQUIRED = {"reports": 1200, "coverages": 600, "nothing_aboard": 60, "trip_rows": 1500, "stop_rows": 5000, "dropped_empty": 60, "files": 150, "prompts": 150,
            "plots": 60, "arrows": 200, "infeasible": 40, "no_trips": 15, "no_routes": 10, "twins": 120, "edited": 120}
RULE = (
    "case = a solution (from every kind of algorithm, hand-made infeasible, empty or partial) reported as a columnar report, "
    "printed, written over an existing file or drawn as a graph; every number, identifier, place and arrow of the artifact is "
    "read back and compared with the observed plan and the pure-data instance; non-trivial = a plan with at least two requests; "
    "distinct = by the plan"
)


def same(got, want, digits):
    """A printed number is the value, rounded to the digits it is printed with."""
    if want in (float("inf"), float("-inf")):
        return got == want
    if abs(want) > 1e300:
        return abs(got) > 1e300
    return abs(got - want) <= 0.5 * 10 ** -digits * 1.02 + 1e-9 * abs(want)


def spots(a, b):
    return len(a) == len(b) and all(same(x, y, 3) for x, y in zip(a, b))


def expected_rows(inst, r):
    trips = inst.t()
    rows = oracle.simulate(inst, r, [s["start"] for s in r["stops"]])
    stops, planned = [], {}
    for s, x in zip(r["stops"], rows):
        stops.append(
            dict(id=sorted([f"P{i}" for i in s["p"]] + [f"D{i}" for i in s["d"]]), p=s["pos"], tw=(x["e"], x["l"]),
                 wt=x["start"] - x["arrival"], nt=x["travel"], lt=x["dur"], dt=x["departure"], load=x["load"])
        )
    for k, s in enumerate(r["stops"]):
        for i in s["d"]:
            a = next(n for n, q in enumerate(r["stops"]) if i in q["p"])
            w = oracle.trip_windows(inst, trips[i])
            part = stops[a + 1: k + 1]
            planned[i] = dict(
                p=(trips[i].o.pos, trips[i].d.pos), tw=(w[0], w[3]), wt=sum(x["wt"] for x in part),
                nt=sum(x["nt"] for x in part), lt=stops[a]["lt"] + stops[k]["lt"],
                tt=rows[k]["start"] - rows[a]["departure"], t=(rows[a]["departure"], rows[k]["start"]), load=trips[i].cap,
            )
    return stops, planned


def judge(ctx, inst, result, text, dropped, name, tab="  "):
    ctx.count("reports")
    try:
        rep = report.parse(text)
    except (report.Unreadable, ValueError, StopIteration, IndexError) as exc:
        ctx.violation("unreadable-report", f"[{name}] {exc!r}:\n{text}", inst.data())
        return

    def ok(cond, what, detail):
        return ctx.check(cond, f"report:{what}", lambda: f"[{name}] {detail() if callable(detail) else detail}", inst.data())

    routes = observe.routes(result.routes)
    shown = [r for r in routes if not dropped or any(s["p"] for s in r["stops"])]
    if len(shown) < len(routes):
        ctx.count("dropped_empty")
    served = {i for r in routes for s in r["stops"] for i in s["p"]}
    ok(rep["uuid"] == str(result.planning.uuid), "planning", rep["uuid"])
    ok(rep["routes_count"] == len(shown) == len(rep["routes"]), "routes-count", lambda: (rep["routes_count"], len(rep["routes"]), len(shown)))
    ok(same(rep["seconds"], result.computation_time, 4), "computation-time", rep["seconds"])
    if all(t.cap for t in inst.trips):  # whether requests that load nothing count is unspecified
        ok(close(rep["coverage"], len(served) / len(inst.trips) if inst.trips else 1.0), "coverage", rep["coverage"])
        ctx.count("coverages")
    elif any(served and not any(inst.t()[i].cap for i in served) for served in ([i for s in r["stops"] for i in s["p"]] for r in routes)):
        ctx.count("nothing_aboard")
    ok(rep["objective"] == inst.objective + "Objective", "objective", rep["objective"])
    want = oracle.objective_value(inst, inst.objective, routes)
    ok(len(want) == len(rep["value"]) and all(close(a, b) for a, b in zip(want, rep["value"])), "objective-value", lambda: (rep["value"], want))
    judged = [oracle.verdict(oracle.violations(inst, r)) for r in routes]
    if "grey" not in judged:
        # effective windows are narrower than the services' own: only the primary constraints are certain when satisfied
        ok(rep["feasible"] == ("False" if "bad" in judged else "True"), "feasible", lambda: (rep["feasible"], judged))
        if "bad" in judged:
            ctx.count("infeasible")
    ok(rep["direction"].upper() == "MAXIMIZATION", "direction", rep["direction"])

    by = {}
    for r in rep["routes"]:
        by.setdefault(r["vehicle"].get("ID"), []).append(r)
    for r in shown:
        got = by.get(r["vehicle"], [])
        if not ok(len(got) == 1, "routes", lambda: f"{len(got)} entries for vehicle {r['vehicle']}"):
            continue
        got = got[0]
        v = inst.v()[r["vehicle"]]
        head = got["vehicle"]
        ok(
            spots(report.position(head["Initial"]), v.o.pos)
            and spots(report.position(head["Final"]), v.end.pos)
            and same(float(head["Earliest"]), v.o.e, 2)
            and same(float(head["Latest"]), v.o.l, 2)
            and same(float(head["Capacity"]), v.cap, 2),
            "vehicle", lambda: head,
        )
        stops, planned = expected_rows(inst, r)
        ok(got["n_stops"] == len(got["stops"]) == len(stops), "stops-count", lambda: (got["n_stops"], len(stops)))
        for k, (a, b) in enumerate(zip(got["stops"], stops)):
            ctx.count("stop_rows")
            ids = sorted(x for x in a["id"].strip("[]").split("|") if x)
            good = (
                ids == b["id"] and spots(a["p"], b["p"]) and same(a["tw"][0], b["tw"][0], 1) and same(a["tw"][1], b["tw"][1], 1)
                and close(float(a["load"]), b["load"]) and all(same(a[f], b[f], 1) for f in ("wt", "nt", "lt", "dt"))
            )
            ok(good, "stop", lambda: f"stop {k}: {a} instead of {b}")
        ok(got["n_trips"] == len(got["trips"]) == len(planned), "trips-count", lambda: (got["n_trips"], len(planned)))
        ok(sorted(x["id"] for x in got["trips"]) == sorted(planned), "trips", lambda: [x["id"] for x in got["trips"]])
        for a in got["trips"]:
            b = planned.get(a["id"])
            if b is None:
                continue
            ctx.count("trip_rows")
            good = (
                spots(a["p"][0], b["p"][0]) and spots(a["p"][1], b["p"][1]) and close(float(a["load"]), b["load"])
                and all(same(x, y, 1) for x, y in zip(a["tw"] + a["t"], b["tw"] + b["t"]))
                and all(same(a[f], b[f], 1) for f in ("wt", "nt", "lt", "tt"))
            )
            ok(good, "trip", lambda: f"trip {a} instead of {b}")
    if not inst.trips:
        ctx.count("no_trips")
    if not routes:
        ctx.count("no_routes")
    if len(served) > 1:
        ctx.sig(routes)


def normal(text):
    """A report up to the order of its routes and of the requests inside them."""
    return sorted(re.sub(r"\s+", " ", x).strip() for x in text.split("\n"))


def plot(ctx, inst, result, rng, tmp, name):
    """Draws the solution and reads the drawing back from the figure that is about to be shown or saved."""
    jit = ctx.jit
    import matplotlib.figure
    import matplotlib.pyplot as plt
    from matplotlib.collections import PathCollection
    from matplotlib.patches import FancyArrowPatch

    seen = []

    def look(fig):
        legs, labels, nodes = [], [], []
        for ax in fig.axes:
            for p in ax.patches:
                if isinstance(p, FancyArrowPatch):
                    a, b = p._posA_posB
                    legs.append((tuple(map(float, a)), tuple(map(float, b)), tuple(p.get_edgecolor())))
            for t in ax.texts:
                labels.append((tuple(map(float, t.get_position())), t.get_text()))
            for c in ax.collections:
                if isinstance(c, PathCollection):
                    nodes += [tuple(map(float, o)) for o in c.get_offsets()]
        seen.append((legs, labels, nodes))

    to_file = rng.random() < 0.5
    real_save, real_show = matplotlib.figure.Figure.savefig, plt.show
    target = tmp / "plot.png"

    ways = []

    def save(self, fname, *args, **kwargs):
        look(self)
        where = pathlib.Path(getattr(fname, "name", fname)).resolve()
        ways.append(str(where))
        if where.parent != tmp.resolve():
            return  # where nothing should be written
        if hasattr(fname, "write"):
            fname.write(b"drawn")
            return
        if ctx.counts["real_plots"] < 2:
            ctx.count("real_plots")
            return real_save(self, fname, *args, **kwargs)
        pathlib.Path(fname).write_bytes(b"drawn")

    def show(*args, **kwargs):
        look(plt.gcf())
        ways.append("shown")

    matplotlib.figure.Figure.savefig, plt.show = save, show
    try:
        storer = jit.GraphPlotStorer(target, result=result) if to_file else jit.GraphPlotStorer(result=result)
        storer.store()
    finally:
        matplotlib.figure.Figure.savefig, plt.show = real_save, real_show
    ctx.count("plots")
    if not ctx.check(len(seen) == 1, "plot:shown", lambda: f"[{name}] shown or saved {len(seen)} times", inst.data()):
        return
    ctx.check(ways == ([str(target.resolve())] if to_file else ["shown"]), "plot:shown", lambda: f"[{name}] {'saved' if to_file else 'shown'} as {ways}")
    if to_file:
        ctx.check(target.exists() and target.stat().st_size > 0, "plot:file", lambda: f"[{name}] nothing written")
    legs, labels, nodes = seen[0]
    routes = observe.routes(result.routes)
    want, owner = set(), {}
    for r in routes:
        for a, b in zip(r["stops"], r["stops"][1:]):
            want.add((tuple(a["pos"]), tuple(b["pos"])))
            owner.setdefault((tuple(a["pos"]), tuple(b["pos"])), set()).add(r["vehicle"])
    ctx.count("arrows", len(want))
    got = {(a, b) for a, b, _ in legs}
    proper = {x for x in want if x[0] != x[1]}
    ctx.check(
        {x for x in got if x[0] != x[1]} == proper and got <= want,
        "plot:arrows",
        lambda: f"[{name}] missing {sorted(want - got)}, unexpected {sorted(got - want)}",
        inst.data(),
    )
    colours = {}
    for a, b, c in legs:
        if a != b and len(owner.get((a, b), ())) == 1:
            colours.setdefault(next(iter(owner[(a, b)])), set()).add(c)
    ctx.check(
        all(len(c) == 1 for c in colours.values()) and len({tuple(c) for c in colours.values()}) == len(colours),
        "plot:colours",
        lambda: f"[{name}] {colours}",
        inst.data(),
    )
    places = {}
    for t in inst.trips:
        places.setdefault(t.o.pos, set()).add(f"+{t.id}")
        places.setdefault(t.d.pos, set()).add(f"-{t.id}")
    everywhere = {p for x in want for p in x} | set(places)
    ctx.check(set(nodes) == everywhere, "plot:places", lambda: f"[{name}] {sorted(set(nodes) ^ everywhere)}", inst.data())
    shown = {}
    for at, label in labels:
        if label:
            shown.setdefault(at, set()).add(label)
    ctx.check(
        set(shown) == set(places) and all(labels_at <= places[at] for at, labels_at in shown.items()),
        "plot:labels",
        lambda: f"[{name}] {shown} instead of {places}",
        inst.data(),
    )


def broken_plan(ctx, inst, built, rng):
    """A plan put together without looking at any constraint."""
    left = list(inst.trips)
    rng.shuffle(left)
    routes = []
    for v in inst.vehicles:
        if rng.random() < 0.85:
            k = rng.randint(0, len(left))
            routes.append(build.random_route(ctx.jit, built, rng, v, left[:k])[0])
            left = left[k:]
    return built.result(routes, round(rng.uniform(0, 100), 6))


def solution(ctx, rng):
    jit = ctx.jit
    n = rng.choice((0, 1, 1, 2, 3, 4, 5, 6, 8))
    inst = gen.instance(rng, n, rng.choice((1, 2, 3)))
    if rng.random() < 0.6:
        for t in inst.trips:
            t.cap = t.cap or 1
    elif rng.random() < 0.3:
        for t in inst.trips:
            t.cap = 0
    built = Built(jit, inst)
    kind = rng.random()
    if kind < 0.1:
        return inst, built, built.result([], 0.0), "nothing"
    if kind < 0.35:
        return inst, built, broken_plan(ctx, inst, built, rng), "hand-made"
    kinds = ("insertion", "insertion", "local-search", "iterative", "sequential", "grasp", "naive") if inst.trips else ("insertion", "naive")
    name, desc, algorithm = workload.scenario(jit, built, rng, kinds)
    return inst, built, algorithm.optimize(), name


def publish(ctx, inst, result, name, rng, tmp):
    jit = ctx.jit
    before = [observe.fingerprint(r) for r in result.routes]
    dropped = rng.random() < 0.4
    how = rng.choice(("formatter", "file", "file", "prompt", "prompt", "formatter"))
    kw = {}
    if dropped:
        kw["remove_empty_routes"] = True
    if rng.random() < 0.3:
        kw["tab_character"] = rng.choice(("\t", "    ", " "))
    direct = jit.ColumnarStorerFormatter(result=result, **kw).format()
    if how == "formatter":
        text = direct
    else:
        cls = rng.choice((None, jit.ColumnarStorerFormatter))
        if dropped or kw:

            class cls(jit.ColumnarStorerFormatter):
                def __init__(self, *a, **k):
                    super().__init__(*a, **k, **kw)

        skw = {} if cls is None else {"formatter_cls": cls}
        if how == "file":
            path = tmp / "out.txt"
            if rng.random() < 0.5:
                path.write_text("left over from before\n" * 500)
            jit.FileStorer(path, result=result, **skw).store()
            text = path.read_text()
            ctx.count("files")
        else:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                jit.PromptStorer(result=result, **skw).store()
            text = out.getvalue()
            ctx.count("prompts")
    ctx.check(normal(text.strip("\n")) == normal(direct), "stored-is-not-the-report", lambda: f"[{name}/{how}]\n{text}\n---\n{direct}", inst.data())
    judge(ctx, inst, result, text, dropped, name)
    ctx.check(before == [observe.fingerprint(r) for r in result.routes], "reporting-changes-the-plan", lambda: f"[{name}/{how}]", inst.data())
    ctx.sample(dict(report=text.split("\n")[:6] + text.split("\n")[-6:], how=how, algorithm=name))


def case(ctx, i, rng):
    jit = ctx.jit
    inst, built, result, name = solution(ctx, rng)
    ctx.note(name)
    with tempfile.TemporaryDirectory(prefix="vp-c16-") as tmp:
        tmp = pathlib.Path(tmp)
        publish(ctx, inst, result, name, rng, tmp)
        if i // 8 % 8 == 3 and result.routes:
            before = [observe.fingerprint(r) for r in result.routes]
            plot(ctx, inst, result, rng, tmp, name)
            ctx.check(before == [observe.fingerprint(r) for r in result.routes], "reporting-changes-the-plan", lambda: f"[{name}/plot]", inst.data())
        draw = rng.random()
        if draw < 0.15:  # another result with the same plan
            twin = jit.Result(jit.NaiveAlgorithm(built.fleet, built.job), result.planning, result.computation_time + round(rng.uniform(1, 9), 3))
            publish(ctx, inst, twin, f"{name}, same plan", rng, tmp)
            ctx.count("twins")
        elif draw < 0.35:  # the plan is edited
            served = sorted((t.identifier, r.vehicle.identifier) for r in result.routes for t in r.trips)
            if served:
                gone, vehicle = rng.choice(served)
                route = next(r for r in result.routes if r.vehicle.identifier == vehicle)
                route.remove_trip(built.trips[gone])
                publish(ctx, inst, result, f"{name}, edited", rng, tmp)
                ctx.count("edited")
