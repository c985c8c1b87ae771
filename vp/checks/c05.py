"""Objective values are what the definition of the objective says, at every level."""
from .. import build, gen, observe, oracle, workload
from ..inst import Built, dist
from ..oracle import close

CASES = dict(quick=4000, thorough=80000)
REQUIRED = {"values": 30000, "bonus_paid": 100, "bonus_missed": 100, "zero_capacity": 100, "results": 1000, "solver_results": 150, "valued_again": 500}
RULE = (
    "case = a planning of random routes (any feasibility, empty routes, requests without load, bonuses met and missed) or a "
    "solver's planning, valued at the level of the request, the stop, the route, the planning and the result under the three "
    "objectives; non-trivial = at least two requests; distinct = by the values"
)


def eq(a, b):
    return isinstance(a, tuple) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))


def trip_value(inst, name, obs, i):
    tr = inst.t()[i]
    a, b = oracle.trip_times(inst, obs)[i]
    if name == "DialARide":
        total, pos, on = 0.0, None, False
        for s in obs["stops"]:
            if on:
                total += dist(inst.metric, pos, s["pos"])
            if i in s["p"]:
                on = True
            if i in s["d"]:
                break
            pos = s["pos"]
        return (1, -total)
    if tr.cap == 0:
        return (0.0,)
    if name == "TaxiSharing":
        return (b - a,)
    value = dist(inst.metric, tr.o.pos, tr.d.pos)
    if oracle.trip_windows(inst, tr)[0] == a:
        value += tr.bonus
    return (value,)


def judge(ctx, inst, result, how):
    jit = ctx.jit
    for name in ("DialARide", "TaxiSharing", "HashCode"):
        objective = getattr(jit, f"{name}Objective")()
        f = objective.optimization_function
        zero = tuple(0 for _ in range(2 if name == "DialARide" else 1))
        all_obs = []

        def check(level, got, want):
            ctx.count("values")
            ctx.check(eq(got, want), f"{name}:{level}", lambda: f"[{how}] {got} instead of {want}: {all_obs}", inst.data())

        for r in result.routes:
            obs = observe.route(r)
            all_obs.append(obs)
            for s in r.stops:
                total = zero
                for pt in s.pickup_planned_trips:
                    want = trip_value(inst, name, obs, pt.trip.identifier)
                    check("request", f(pt), want)
                    total = tuple(x + y for x, y in zip(total, want))
                check("stop", f(s), total)
            check("route", f(r), oracle.objective_value(inst, name, [obs]))
        want = oracle.objective_value(inst, name, all_obs)
        check("planning", f(result.planning), want)
        check("result", f(result), want)
        check("value", f(want), want)
        ctx.check(objective.direction == jit.OptimizationDirection.MAXIMIZATION, f"{name}:direction", "")
        if inst.objective == name:
            ctx.count("results")
            check("reported", result.optimization_value, want)
            ctx.check(type(result.objective) is type(objective), f"{name}:objective", lambda: f"{result.objective}")
            ctx.check(result.direction == objective.direction, f"{name}:reported-direction", "")
        if sum(len(s["p"]) for o in all_obs for s in o["stops"]) > 1:
            ctx.sig(name, want)
        if name == "HashCode":
            for o in all_obs:
                for i, (a, b) in oracle.trip_times(inst, o).items():
                    tr = inst.t()[i]
                    if tr.cap == 0:
                        ctx.count("zero_capacity")
                    elif tr.bonus:
                        ctx.count("bonus_paid" if oracle.trip_windows(inst, tr)[0] == a else "bonus_missed")


def case(ctx, i, rng):
    jit = ctx.jit
    if rng.random() < 0.15:
        inst, built = workload.make(ctx, rng)
        name, desc, algorithm = workload.scenario(jit, built, rng, workload.ALL)
        ctx.note((name, desc))
        ctx.count("solver_results")
        judge(ctx, inst, algorithm.optimize(), name)
        return
    inst = gen.relaxed(rng, rng.choice((1, 2, 4, 6)), rng.choice((1, 2, 3))) if rng.random() < 0.5 else gen.instance(rng)
    if rng.random() < 0.6:
        for t in inst.trips:
            t.o.d = t.d.d = 0.0
            t.bonus = float(rng.choice((2, 5, 25)))
            if rng.random() < 0.5:
                t.o.e = float(int(t.o.e))
    built = Built(jit, inst)
    routes, used = [], set()
    for v in inst.vehicles:
        trips = [t for t in inst.trips if t.id not in used and rng.random() < 0.6]
        used |= {t.id for t in trips}
        route, _, order = build.random_route(jit, built, rng, v, trips)
        if rng.random() < 0.4 and len(route.stops) > 2:
            k = rng.randrange(1, len(route.stops) - 1)
            route.stops[k].starting_time = route.stops[k].starting_time + rng.choice((0.0, 1.0, 10.0))
            route.flush()
        routes.append(route)
    ctx.sample(dict(instance=inst.data(), routes=[observe.route(r) for r in routes]))
    result = built.result(routes)
    judge(ctx, inst, result, "built")
    if rng.random() < 0.3:
        return
    # the plan goes on being edited, and is valued again
    for _ in range(rng.choice((1, 1, 2))):
        route = rng.choice(routes)
        free = [t for t in inst.trips if t.id not in used]
        inside = sorted(t.identifier for t in route.trips)
        op = rng.choice(("remove", "delay", "append"))
        if op == "remove" and inside:
            route.remove_trip(built.trips[rng.choice(inside)])
        elif op == "append" and free:
            t = rng.choice(free)
            used.add(t.id)
            v, trip = route.vehicle, built.trips[t.id]
            before = rng.choice(route.stops[:-1])
            pickup = jit.Stop(v, trip.origin_position, before)
            route.append_planned_trip(jit.PlannedTrip(v, trip, pickup, jit.Stop(v, trip.destination_position, pickup)))
        elif len(route.stops) > 2:
            k = rng.randrange(1, len(route.stops) - 1)
            route.stops[k].starting_time = route.stops[k].starting_time + rng.choice((1.0, 10.0))
            route.flush()
        else:
            continue
        ctx.count("valued_again")
        judge(ctx, inst, result, f"later:{op}")
    other = built.result(routes[:1])
    result.planning = other.planning
    judge(ctx, inst, result, "another-planning")
