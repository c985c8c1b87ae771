"""Every well-formed problem gets an answer: no failure, no endless run, whatever its size or shape."""
import contextlib
import io
import pathlib
import tempfile

from .. import build, files, gen, observe, oracle, workload
from ..inst import INF, Built, Inst, S, T, V

CASES = dict(quick=1300, thorough=24000)
REQUIRED = {"answers": 1200, "no_requests": 60, "one_place": 60, "nothing_fits": 60, "long_routes": 12, "stops_on_long_routes": 5000,
            "examples": 60, "described": 300, "options": 1000, "more_vehicles_than_requests": 100, "boundary_options": 150}
RULE = (
    "case = a well-formed problem of an unusual shape (no requests, one place, nothing fits, one huge route, far more vehicles "
    "than requests, zero everything) solved by every kind of algorithm with unusual but valid options, then reported and "
    "described; the answer must arrive within a bounded CPU time, without failing, and be a plan of the problem; "
    "distinct = by the instance and the configuration"
)
CPU_LIMIT = 90.0


def one_place(rng):
    here = S(float(rng.randint(-2, 2)), float(rng.randint(-2, 2)), 0.0, rng.choice((INF, 50.0)))
    n = rng.choice((1, 2, 4, 6))
    trips = [
        T(str(k), S(*here.pos, 0.0, rng.choice((INF, 10.0)), rng.choice((0.0, 1.0))), S(*here.pos, 0.0, INF, 0.0), 1, rng.choice((INF, 0.0, 5.0)))
        for k in range(n)
    ]
    return Inst(rng.choice(("EUCLIDEAN", "MANHATTAN")), [V(str(k), here, None, float(rng.choice((1, 3)))) for k in range(rng.choice((1, 2)))], trips,
                rng.choice(("DialARide", "TaxiSharing", "HashCode")))


def nothing_fits(rng):
    inst = gen.instance(rng, rng.choice((1, 2, 4)), rng.choice((1, 2)))
    kind = rng.choice(("windows", "capacity", "time", "far"))
    for t in inst.trips:
        t.cap = t.cap or 1
        if kind == "windows":
            t.o.e, t.o.l, t.d.e, t.d.l = 50.0, 60.0, 0.0, 10.0
        elif kind == "capacity":
            t.cap = 1e6
        elif kind == "time":
            t.timeout = -1.0
        else:
            t.o.x, t.o.l = 1e7, 100.0
    if kind == "far":
        for v in inst.vehicles:
            v.o.e = min(v.o.e, 100.0)
    return inst


def zeros(rng):
    inst = gen.degenerate(rng, rng.choice((1, 3, 5)), rng.choice((1, 2)))
    for t in inst.trips:
        for s in (t.o, t.d):
            s.e, s.l, s.d = 0.0, rng.choice((0.0, INF)), 0.0
        t.cap = rng.choice((0, 1))
    return inst


def check_answer(ctx, inst, result, name):
    rs = observe.routes(result.routes)
    errs = oracle.assignment_errors(inst, rs)
    ctx.count("answers")
    ctx.check(not errs, f"not-a-plan:{errs[0][0] if errs else ''}", lambda: f"[{name}] {errs} {rs}", inst.data())
    ctx.check(0.0 <= result.coverage_rate <= 1.0 and result.computation_time >= 0.0, "coverage-or-time", lambda: f"[{name}] {result.coverage_rate}")
    ctx.check(isinstance(result.feasible, bool) and result.feasible, "infeasible-plan", lambda: f"[{name}] {rs}", inst.data())
    return rs


def describe(ctx, result):
    """Printing the library's objects is always possible."""
    ctx.count("described")
    jit = ctx.jit
    parts = [result, result.planning, result.job, result.fleet]
    for r in list(result.routes)[:2]:
        parts += [r, r.vehicle] + list(r.stops)[:3] + list(r.planned_trips)[:2] + list(r.trips)[:2]
    for p in parts:
        text = repr(p)
        ctx.check(isinstance(text, str) and type(p).__name__ in text, "description", lambda: f"{text[:200]}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        jit.PromptStorer(result=result).store()
    ctx.check(str(result.planning.uuid) in out.getvalue(), "report", lambda: out.getvalue()[:200])


def boundary(jit, inst, built, rng):
    """Valid options at the edge of what they mean."""
    kind = rng.choice(("ranking", "stateless", "grasp", "iterative", "sequential", "local"))
    common = dict(fleet=built.fleet, job=built.job)
    if kind == "ranking":
        kw = dict(iterator_cls=jit.RankingInsertionIterator, neighborhood_max_size=rng.choice((1, 2, 10 ** 6, None)), randomized_size=rng.choice((1, 50, 1000)))
        return kind, kw, jit.InsertionAlgorithm(**common, **kw)
    if kind == "stateless":
        kw = dict(iterator_cls=rng.choice((jit.StatelessInsertionIterator, jit.BestStatelessInsertionIterator)))
        if kw["iterator_cls"] is jit.BestStatelessInsertionIterator:
            kw["randomized_size"] = rng.choice((1, 50))
        return kind, kw, jit.InsertionAlgorithm(**common, **kw)
    if kind == "grasp":
        kw = rng.choice(({}, dict(episodes=1), dict(no_improvement_threshold=1, episodes=1), dict(first_solution_kwargs={}, local_search_kwargs={}, episodes=1)))
        return kind, kw, jit.GraspAlgorithm(**common, **kw)
    if kind == "iterative":
        kw = rng.choice((dict(episodes=1), dict(episodes=2, randomized_size=100), dict(episodes=3, restart_mode=False, randomized_size=3)))
        return kind, kw, jit.IterativeAlgorithm(**common, **kw)
    initial = jit.InsertionAlgorithm(**common).optimize() if rng.random() < 0.7 else jit.NaiveAlgorithm(**common).optimize()
    if kind == "sequential":
        return kind, {}, jit.SequentialAlgorithm(**common, initial=initial)
    kw = dict(strategy_cls=getattr(jit, rng.choice(workload.SEARCHES)), no_improvement_threshold=rng.choice((1, 3)))
    return kind, kw, jit.LocalSearchAlgorithm(**common, initial=initial, **kw)


def long_route(ctx, i, rng):
    """One vehicle with many requests: everything that can be asked about its route, edited, copied and solved."""
    jit = ctx.jit
    n = rng.choice((150, 300, 700)) if i // 8 % 2 else rng.choice((30, 60))
    inst = gen.long_line(rng, n, 1)
    for v in inst.vehicles:
        v.cap = 2.0
    built = Built(jit, inst)
    route, shape, order = build.random_route(
        jit, built, rng, inst.vehicles[0], inst.trips[: rng.choice((n, n // 2))], "direct"
    )
    ctx.count("long_routes")
    ctx.count("stops_on_long_routes", len(route.stops))
    # asked from the end of the route, before anything else was
    last = route.stops[-1]
    rng.choice((lambda: last.arrival_time, lambda: last.departure_time, lambda: last.capacity, lambda: route.feasible, lambda: route.duration,
                lambda: route.clone(), lambda: built.result([route]).optimization_value))()
    import copy

    twin = copy.deepcopy(route)
    clone = route.clone()
    ctx.check(
        observe.structure(twin) == observe.structure(route) == observe.structure(clone), "copy-of-long-route", "structure differs"
    )
    clone.flush()
    clone.feasible
    route.identifier
    ctx.check(
        [s["start"] for s in observe.route(clone)["stops"]] == [s["start"] for s in observe.route(route)["stops"]], "copy-of-long-route", "times differ"
    )
    repr(route)
    jit.ColumnarStorerFormatter(result=built.result([route])).format()
    jit.HashCodeStorerFormatter(result=built.result([route])).format()
    if n <= 60:
        algorithm = jit.InsertionAlgorithm(fleet=built.fleet, job=built.job, strategy_cls=jit.TailInsertionStrategy)
        result = algorithm.optimize()
        check_answer(ctx, inst, result, "long-insertion")
        describe(ctx, result)
    ctx.sig("long", n, observe.structure(route))


def example(ctx, i, rng):
    """The configurations the library's own examples and documentation show, on generated benchmark files."""
    jit = ctx.jit
    with tempfile.TemporaryDirectory(prefix="vp-c20-") as tmp:
        path = pathlib.Path(tmp) / "instance.txt"
        if rng.random() < 0.6:
            rows, inst = files.cordeau(rng, n=rng.choice((1, 3, 5)), m=rng.choice((1, 2, 3)))
            loader = {"file_path": path}
        else:
            rows, inst = files.hashcode(rng, n=rng.choice((0, 1, 3, 6)))
            loader = {"file_path": str(path), "formatter_cls": jit.HashCodeLoaderFormatter}
        path.write_text(files.text(rng, rows))
        algorithm, kw = rng.choice(
            (
                (jit.InsertionAlgorithm, {}),
                (jit.GraspAlgorithm, {"first_solution_kwargs": {"episodes": 1, "randomized_size": 2}, "episodes": 2}),
                (jit.GraspAlgorithm, {"episodes": 1}),
                (jit.InsertionAlgorithm, {"strategy_cls": jit.IntensiveInsertionStrategy}),
                (jit.InsertionAlgorithm, {"iterator_cls": jit.RankingInsertionIterator, "strategy_cls": jit.TailInsertionStrategy}),
            )
        )
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            result = jit.Solver(loader_kwargs=loader, algorithm=algorithm, algorithm_kwargs=kw).solve()
    ctx.count("examples")
    ctx.check(str(result.planning.uuid) in out.getvalue(), "report", lambda: out.getvalue()[:200])
    rs = check_answer(ctx, inst, result, algorithm.__name__)
    ctx.sig("example", rows, algorithm.__name__)


def shaped(ctx, i, rng):
    jit = ctx.jit
    shape = rng.choice(("none", "one-place", "nothing-fits", "zeros", "crowd", "usual", "usual"))
    if shape == "none":
        inst = gen.instance(rng, 1, rng.choice((1, 2, 5)))
        inst.trips = []
        ctx.count("no_requests")
    elif shape == "one-place":
        inst = one_place(rng)
        ctx.count("one_place")
    elif shape == "nothing-fits":
        inst = nothing_fits(rng)
        ctx.count("nothing_fits")
    elif shape == "zeros":
        inst = zeros(rng)
    elif shape == "crowd":
        inst = gen.instance(rng, rng.choice((1, 2)), rng.choice((6, 10)))
        ctx.count("more_vehicles_than_requests")
    else:
        inst = gen.instance(rng, rng.choice((1, 2, 4, 6, 9)))
    built = Built(jit, inst)
    if rng.random() < 0.35:
        name, desc, algorithm = boundary(jit, inst, built, rng)
        ctx.count("boundary_options")
    else:
        kinds = workload.ALL + ("naive",)
        name, desc, algorithm = workload.scenario(jit, built, rng, kinds)
    ctx.note((shape, name, desc))
    ctx.count("options")
    result = algorithm.optimize()
    rs = check_answer(ctx, inst, result, f"{shape}/{name}")
    if shape == "nothing-fits":
        ctx.check(not any(s["p"] for r in rs for s in r["stops"]), "serves-the-impossible", lambda: f"{rs}", inst.data())
    if i // 8 % 2:
        describe(ctx, result)
    # solving again with the answer as the starting point
    if rng.random() < 0.2:
        again = jit.SequentialAlgorithm(fleet=built.fleet, job=built.job, initial=result).optimize()
        check_answer(ctx, inst, again, f"{shape}/{name}/again")
    if inst.trips:
        ctx.sig(shape, name, repr(desc), inst.data())
    ctx.sample(dict(shape=shape, algorithm=name, options=str(desc), requests=len(inst.trips), vehicles=len(inst.vehicles)))


def case(ctx, i, rng):
    kind = i // 8 % 24
    (long_route if kind in (3, 4) else example if kind in (7, 15, 20) else shaped)(ctx, i, rng)
