"""Solving, scoring, comparing and storing never change what they were given."""
import io
import contextlib
import pathlib
import sys
import tempfile

from .. import build, core, gen, model, observe, workload
from ..inst import Built

CASES = dict(quick=1400, thorough=30000)
REQUIRED = {"solves": 800, "initials": 500, "initial_changed_later": 60, "earlier_results": 500, "computes": 1500,
            "adjusted_candidates": 100, "chained_computes": 200, "readings": 300, "stores": 100, "handmade_plans": 200, "interrupted": 100, "nested_options": 120, "stops_watched": 10000}
RULE = (
    "case = a history of solver runs (finished, interrupted at a random call, repeated), candidate computations, scorings and storings over the same requests, vehicles and "
    "earlier plans, everything fingerprinted (attributes, stop identities, links, all times, also after recomputing) before "
    "and after each step; non-trivial = a step that returned a plan different from the one it was given; distinct = by both"
)


def plan_print(routes):
    return sorted((observe.fingerprint(r) for r in routes), key=repr)


def recomputed(routes):
    """What the routes say when everything is computed again (not just what they remember)."""
    for r in routes:
        r.flush()
    return plan_print(routes)


class Watch:
    """Everything handed over so far, with what it looked like."""

    def __init__(self, ctx, inst, built):
        self.ctx, self.inst, self.built = ctx, inst, built
        self.job, self.fleet = observe.job_snapshot(built.job), observe.fleet_snapshot(built.fleet)
        self.plans = []

    def add(self, name, routes):
        routes = list(routes)
        self.plans.append((name, routes, recomputed(routes), [r.feasible for r in routes]))

    def verify(self, step):
        ctx = self.ctx
        ctx.check(observe.job_snapshot(self.built.job) == self.job, "requests-changed", f"by {step}", self.inst.data())
        ctx.check(observe.fleet_snapshot(self.built.fleet) == self.fleet, "vehicles-changed", f"by {step}", self.inst.data())
        for name, routes, before, feasible in self.plans:
            ctx.count("earlier_results")
            ctx.count("stops_watched", sum(len(r.stops) for r in routes))
            for how, after in (("as-remembered", plan_print(routes)), ("recomputed", recomputed(routes))):
                ctx.check(
                    after == before,
                    f"earlier-plan-changed:{how}",
                    lambda: f"{name} by {step}: {_diff(before, after)}",
                    self.inst.data(),
                )
            links = [e for r in routes for e in observe.link_errors(r)]
            ctx.check(not links, "earlier-plan-links", lambda: f"{name} by {step}: {links[:3]}", self.inst.data())
            ctx.check([r.feasible for r in routes] == feasible, "earlier-plan-feasibility", f"{name} by {step}")


def _diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            for k, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"part {k}: {p} -> {q}"[:600]
    return f"{len(a)} -> {len(b)} routes"


class Interrupt(BaseException):
    pass


def interrupted(ctx, rng, algorithm):
    """Lets the algorithm run until some call inside of the library; its result when it gets that far."""
    left = [int(10 ** rng.uniform(0, 4.5))]

    def hook(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(core.LIB):
            left[0] -= 1
            if left[0] <= 0:
                sys.setprofile(None)
                raise Interrupt

    try:
        sys.setprofile(hook)
        return algorithm.optimize()
    except Interrupt:
        ctx.count("interrupted")
        return None
    finally:
        sys.setprofile(None)


def solve_history(ctx, rng, inst, built, watch, handmade):
    jit = ctx.jit
    for _ in range(rng.choice((1, 2, 3))):
        if handmade is not None and rng.random() < 0.7:
            run = workload.scenario(jit, built, rng, workload.FROM_PLAN, handmade)
        else:
            run = workload.scenario(jit, built, rng, workload.ALL)
        name, desc, algorithm = run
        initial = getattr(algorithm, "initial", None)
        if initial is not None:
            watch.add("initial", initial.routes)
        kept = set(initial.planning.routes) if initial is not None else None
        given = []

        def enter(node):
            # inner algorithms also receive plans
            if node.initial is not None:
                given.append((node.cls, node.initial, plan_print(node.initial.routes)))

        result = None
        with workload.traced(jit, on_enter=enter):
            if rng.random() < 0.15:
                result = interrupted(ctx, rng, algorithm)
                if result is None:
                    watch.verify(f"{name}, interrupted")
            if result is None:
                result = algorithm.optimize()
            if rng.random() < 0.2:
                algorithm.optimize()
        ctx.count("solves")
        ctx.check(not run.options_changed(), f"options-changed:{name}", run.options_changed)
        if name in ("grasp", "sequential"):
            ctx.count("nested_options")
        for cls, plan, before in given:
            ctx.count("initials")
            after = plan_print(plan.routes)
            ctx.check(after == before, f"initial-changed:{cls}", lambda: f"[{name}] {_diff(before, after)}", inst.data())
        if initial is not None:
            ctx.check(kept == set(initial.planning.routes), "initial-routes-replaced", name)
            a, b = plan_print(initial.routes), plan_print(result.routes)
            if [x[0] for x in a] != [x[0] for x in b]:
                ctx.count("initial_changed_later")
                ctx.sig(a and [x[0] for x in a], [x[0] for x in b])
        watch.verify(name)
        watch.add(f"result of {name}", result.routes)
    return result


def candidates(ctx, rng, inst, built, watch):
    jit = ctx.jit
    vehicle = rng.choice(inst.vehicles)
    trips = rng.sample(inst.trips, rng.randint(0, len(inst.trips) - 1)) if inst.trips else []
    route, shape, order = build.random_route(jit, built, rng, vehicle, trips)
    k = rng.randrange(len(route.stops))
    if rng.random() < 0.5:
        route.stops[k].starting_time = route.stops[k].starting_time + rng.choice((0.0, 3.0))
        route.flush()
    pending = [t for t in inst.trips if t not in trips]
    if not pending:
        return
    watch.add("the route offered", [route])
    for _ in range(rng.choice((1, 2))):
        only = rng.random() < 0.5
        which = rng.choice(workload.STRATEGIES + ("InsertionStrategy",))
        strategy = getattr(jit, which)(only_feasible=only)
        some = [built.trips[t.id] for t in rng.sample(pending, rng.randint(1, len(pending)))]
        if which == "InsertionStrategy":
            i, j = sorted(rng.sample(range(len(route.stops)), 2))
            offered = strategy.compute(route, some, i, j)
        else:
            offered = strategy.compute(route, some)
        ctx.count("computes")
        before = {id(s) for s in route.stops}
        for c in offered:
            own = [s for s in c.stops if id(s) not in before]
            if any(s.starting_time > max(s.arrival_time, s.earliest) + 1e-9 for s in own):
                ctx.count("adjusted_candidates")
        watch.verify(which)
        # a chosen candidate keeps evolving through further insertions; the original and the other ones stay as they are
        if len(offered) >= 2:
            chosen, other = rng.sample(offered, 2)
            rest = [built.trips[t.id] for t in pending if built.trips[t.id] not in set(chosen.trips)]
            if not rest:
                continue
            watch.add("the chosen candidate", [chosen])
            watch.add("another candidate", [other])
            getattr(jit, rng.choice(workload.STRATEGIES))(only_feasible=only).compute(chosen, rest)
            ctx.count("chained_computes")
            watch.verify(f"inserting further into a candidate of {which}")


def readings(ctx, rng, inst, built, watch, result):
    jit = ctx.jit
    routes = list(result.routes)
    for name in workload.CRITERIA:
        criterion = getattr(jit, name)()
        criterion.best(*routes)
        criterion.nbest(2, routes)
        criterion.sorted(list(routes), inplace=rng.random() < 0.5)
        for r in routes:
            criterion.scoring(r)
    for name in ("DialARide", "TaxiSharing", "HashCode"):
        objective = getattr(jit, f"{name}Objective")()
        objective.optimization_function(result)
        objective.best(result, None, result)
        for r in routes:
            objective.optimization_function(r)
    dict(result)
    result.optimization_value, result.coverage_rate, result.feasible, result.computation_time
    ctx.count("readings")
    watch.verify("reading")
    for r in routes:
        r.clone(rng.randint(0, len(r.stops)))
    watch.verify("cloning")


def stores(ctx, rng, inst, built, watch, result):
    jit = ctx.jit
    with tempfile.TemporaryDirectory(prefix="vp-c08-") as tmp:
        path = pathlib.Path(tmp)
        storers = [
            (jit.PromptStorer, dict(formatter_cls=jit.ColumnarStorerFormatter)),
            (jit.FileStorer, dict(file_path=path / "a.txt", formatter_cls=jit.ColumnarStorerFormatter)),
            (jit.FileStorer, dict(file_path=path / "b.txt", formatter_cls=jit.HashCodeStorerFormatter)),
        ]
        for cls, kw in rng.sample(storers, 2):
            with contextlib.redirect_stdout(io.StringIO()):
                cls(result=result, **kw).store()
        ctx.count("stores")
        watch.verify("storing")


def case(ctx, i, rng):
    handmade = None
    if rng.random() < 0.4:
        inst, built, handmade = workload.planned(ctx, rng)
    else:
        inst, built = workload.make(ctx, rng, n=rng.choice((2, 3, 4, 6)))
    watch = Watch(ctx, inst, built)
    result = solve_history(ctx, rng, inst, built, watch, handmade)
    for _ in range(2):
        candidates(ctx, rng, inst, built, watch)
    if rng.random() < 0.6:
        readings(ctx, rng, inst, built, watch, result)
    if rng.random() < 0.3:
        stores(ctx, rng, inst, built, watch, result)
    ctx.sample(dict(instance=inst.data(), watched=[p[0] for p in watch.plans]))
