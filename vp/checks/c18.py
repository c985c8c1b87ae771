"""The exact method returns a feasible plan with everybody served at the least possible distance."""
import os
import pathlib
import tempfile

from .. import brute, files, observe, oracle
from ..inst import INF, Built, Inst, S, T, V, dist

CASES = dict(quick=1500, thorough=12000)
REQUIRED = {"solved": 600, "several_vehicles": 120, "shared": 60, "unlimited": 40, "idle_vehicles": 20, "impossible": 15,
            "coincident": 30, "unequal_services": 100, "waiting_matters": 30, "late_clocks": 60, "endless_shifts": 60, "from_files": 30}
RULE = (
    "case = a small problem with equal vehicles (windows around a hidden plan or random, unequal service times, tight or "
    "missing limits, coincident places, different end depot, benchmark files) solved by the exact method; its plan is judged "
    "on the pure data and its distance compared with the optimum found by enumerating every assignment, order and schedule; "
    "non-trivial = at least two requests; distinct = by the instance"
)
CPU_LIMIT = 120.0
MARGIN = 5e-3


def random_instance(rng):
    m = rng.choice((1, 1, 2, 2))
    n = rng.choice((1, 2, 2, 3, 3)) if m == 2 else rng.choice((1, 2, 3, 3, 4))
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    side = rng.choice((3, 6, 12))
    sharp = metric == "MANHATTAN"  # whole numbers: no rounding anywhere, constraints may be exactly tight

    def place():
        return float(rng.randint(0, side)), float(rng.randint(0, side))

    depot, end = place(), place() if rng.random() < 0.3 else None
    cap = float(rng.choice((1, 2, 3)))
    trips = []
    for k in range(n):
        a, b = place(), place()
        if trips and rng.random() < 0.3:
            a = rng.choice(trips).d.pos
        elif trips and rng.random() < 0.2:
            a = rng.choice(trips).o.pos
        if trips and rng.random() < 0.2:
            b = rng.choice(trips).d.pos
        trips.append(T(f"t{k}", S(*a, 0.0, INF, float(rng.choice((0, 0, 1, 3)))), S(*b, 0.0, INF, float(rng.choice((0, 0, 1, 2)))),
                       float(rng.randint(1, int(cap)))))
    start = float(rng.choice((0, 0, 5, 60, 5000)))  # whatever the clock says
    far = rng.choice((1440.0 + start, INF))
    inst = Inst(metric, [V(f"v{k}", S(*depot, start, far), None if end is None else S(*end, 0.0, far), cap) for k in range(m)], trips)
    # a hidden plan gives the windows and the limits, so that most problems are solvable and tight
    groups = {v.id: [] for v in inst.vehicles}
    for t in trips:
        groups[rng.choice(sorted(groups))].append(t)
    least = dict(timeout=0.0, end=0.0)
    for v in inst.vehicles:
        order = []
        mine = groups[v.id]
        rng.shuffle(mine)
        for t in mine:
            a = rng.randint(0, len(order)) if rng.random() < 0.6 else len(order)
            order.insert(a, ("p", t))
            b = rng.randint(a + 1, len(order)) if rng.random() < 0.6 else len(order)
            order.insert(b, ("d", t))
        now, pos, begin = start, depot, None
        now += float(rng.choice((0, 0, 10)))
        left = {}
        for kind, t in order:
            s = t.o if kind == "p" else t.d
            if begin is None:
                begin = now
            now += dist(metric, pos, s.pos) + float(rng.choice((0, 0, 0, 2)))
            pos = s.pos
            style = rng.random()
            lo, hi = (rng.choice(w) for w in (((0, 2, 8), (0, 2, 8)) if sharp else ((1, 2, 8), (1, 2, 8))))
            if style < 0.6:
                s.e, s.l = max(0.0, now - lo), now + hi
            elif style < 0.7:
                s.e = max(0.0, now - lo)
            elif style < 0.8:
                s.l = now + hi
            if kind == "d":
                ride = now - left[t.id]
                if rng.random() < 0.6:
                    t.timeout = max(ride + rng.choice((0, 1, 5) if sharp else (0.5, 1, 5)), dist(metric, t.o.pos, t.d.pos))
            now += s.d
            if kind == "p":
                left[t.id] = now
        if begin is not None:
            now += dist(metric, pos, inst.vehicles[0].end.pos)
            least["timeout"] = max(least["timeout"], now - begin)
            least["end"] = max(least["end"], now)
    extra = (0, 1, 10) if sharp else (0.5, 1, 10)
    direct = dist(metric, depot, inst.vehicles[0].end.pos)
    if rng.random() < 0.5:
        limit = max(least["timeout"] + rng.choice(extra), direct)
        for v in inst.vehicles:
            v.timeout = limit
    if rng.random() < 0.5:
        last = max(least["end"] + rng.choice(extra), start + direct)
        for v in inst.vehicles:
            v.end.l = last
    if rng.random() < 0.12:
        # whatever comes out of making it harder
        t = rng.choice(trips)
        for s in (t.o, t.d):
            s.e += 15.0
            s.l = min(s.l, s.e + 3.0)
    if rng.random() < 0.3:
        for v in inst.vehicles:
            v.o.l = v.end.l if end is None else INF
    return inst


def from_file(ctx, rng):
    jit = ctx.jit
    if rng.random() < 0.6:
        rows, inst = files.cordeau(rng, n=rng.choice((1, 2, 3)), m=rng.choice((1, 2)))
        formatter = "CordeauLaporteLoaderFormatter"
    else:
        rows, inst = files.hashcode(rng, n=rng.choice((1, 2, 3)), m=rng.choice((1, 2)), roomy=True)
        formatter = "HashCodeLoaderFormatter"
    with tempfile.TemporaryDirectory(prefix="vp-c18-") as tmp:
        path = pathlib.Path(tmp) / "a.txt"
        path.write_text(files.text(rng, rows))
        loaded = files.Loaded(jit, inst, jit.FileLoader(path, formatter_cls=getattr(jit, formatter)))
    ctx.count("from_files")
    return inst, loaded


def case(ctx, i, rng):
    import pulp

    jit = ctx.jit
    if rng.random() < 0.2:
        inst, built = from_file(ctx, rng)
        sharp = inst.metric == "MANHATTAN"
    else:
        inst = random_instance(rng)
        built = Built(jit, inst)
        sharp = inst.metric == "MANHATTAN"
    loose, tried = brute.optimum(inst, 0.0 if sharp else MARGIN)
    strict = loose if sharp else brute.optimum(inst, -MARGIN)[0]
    ctx.count("routes_enumerated", tried)
    ctx.note(dict(optimum=(loose, strict)))
    kw = {}
    here = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="vp-milp-") as tmp:
        os.chdir(tmp)
        try:
            algorithm = jit.MilpAlgorithm(fleet=built.fleet, job=built.job, solver=pulp.PULP_CBC_CMD(msg=0), **kw)
            try:
                result = algorithm.optimize()
            except Exception as exc:
                if strict < INF:
                    raise
                if loose == INF:
                    ctx.check(isinstance(exc, jit.JineteException), f"impossible:{type(exc).__name__}", lambda: repr(exc), inst.data())
                result = exc
        finally:
            os.chdir(here)
    if isinstance(result, Exception):
        ctx.count("impossible")
        return
    routes = observe.routes(result.routes)
    served = sorted(x for r in routes for s in r["stops"] for x in s["p"])
    complete = served == sorted(t.id for t in inst.trips)
    errs = oracle.assignment_errors(inst, routes)
    viol = [oracle.broken(oracle.violations(inst, r), MARGIN) for r in routes]
    got = sum(oracle.route_distance(inst, r) for r in routes)

    def show():
        return f"distance {got}, optimum {loose}..{strict}, served {served}, broken {viol}, {errs}: {routes}"

    if loose == INF:
        ctx.count("impossible")
        ctx.violation("plan-for-the-impossible", show(), inst.data())
        return
    if strict == INF:
        return
    ctx.count("solved")
    ctx.check(complete and not errs, "not-everybody-served", show, inst.data())
    ctx.check(not any(viol), "infeasible:" + "+".join(sorted({k for v in viol for k in v}))[:60], show, inst.data())
    ctx.check(result.feasible or not sharp, "own-plan-called-infeasible", show, inst.data())
    tol = 1e-4 * max(1.0, loose)
    ctx.check(got <= strict + tol, "not-optimal", show, inst.data())
    ctx.check(got >= loose - tol, "better-than-possible", show, inst.data())
    ctx.check(len(routes) == len(inst.vehicles), "vehicles-without-route", show, inst.data())
    groups = [[x for s in r["stops"] for x in s["p"]] for r in routes]
    if sum(1 for g in groups if g) > 1:
        ctx.count("several_vehicles")
    if max(x["arrival"] for r in routes for x in oracle.simulate(inst, r)) > 1440.0:
        ctx.count("late_clocks")
    if inst.vehicles[0].end.l == INF:
        ctx.count("endless_shifts")
    if any(not g for g in groups):
        ctx.count("idle_vehicles")
    for r in routes:
        aboard = 0
        for s in r["stops"]:
            aboard += len(s["p"]) - len(s["d"])
            if aboard > 1:
                ctx.count("shared")
                break
    if any(t.timeout == INF or t.o.l == INF for t in inst.trips) or inst.vehicles[0].timeout == INF:
        ctx.count("unlimited")
    places = [t.o.pos for t in inst.trips] + [t.d.pos for t in inst.trips]
    if len(set(places)) < len(places):
        ctx.count("coincident")
    if any(t.o.d != t.d.d for t in inst.trips):
        ctx.count("unequal_services")
    if any(x["start"] > x["arrival"] + 1e-6 for r in routes for x in oracle.simulate(inst, r)):
        ctx.count("waiting_matters")
    if len(inst.trips) > 1:
        ctx.sig(inst.data())
    ctx.sample(dict(requests=len(inst.trips), vehicles=len(inst.vehicles), metric=inst.metric, optimum=loose, distance=got, plan=groups))
