"""Reported feasibility = satisfaction of every constraint."""
from .. import build, gen, model, observe, oracle, workload
from ..inst import Built

CASES = dict(quick=4500, thorough=60000)
REQUIRED = {
    "routes_judged": 4000,
    "truly_ok": 1000,
    "truly_bad": 1000,
    "bad:pickup_late": 50,
    "bad:delivery_late": 50,
    "bad:ride": 50,
    "bad:capacity": 50,
    "bad:shift_end": 50,
    "bad:vehicle_timeout": 50,
    "edited": 500,
    "edit:share": 30,
    "plannings_reasked": 300,
    "plannings_judged": 100,
}
RULE = (
    "case = a random instance and a random precedence-respecting plan (built directly, by appending requests in random "
    "order, with caches warm or cold, by insertion strategies without the feasibility filter, or by edits of an existing "
    "route), one constraint bound with a margin drawn around the tolerance; non-trivial = at least one request on the "
    "route; distinct = by constraint margins, verdict and stop sequence"
)
ASSUMPTIONS = ["verdicts within the documented tolerance (0.001) of a bound are not judged"]


def judge(ctx, inst, route, how):
    obs = observe.route(route)
    viol = oracle.violations(inst, obs)
    truth = oracle.verdict(viol)
    reported = route.feasible
    ctx.count("routes_judged")
    ctx.count(f"truly_{truth}")
    for name in oracle.broken(viol):
        ctx.count(f"bad:{name}")
    if len(obs["stops"]) > 2:
        ctx.sig(how, truth, [(k, gen.nice(a)) for k, a in sorted(viol.items())])
    if truth == "bad":
        ctx.check(
            reported is False,
            "accepts-violating-route:" + "+".join(sorted(oracle.broken(viol))),
            lambda: f"[{how}] reported feasible but breaks {oracle.broken(viol)}: {obs}",
            inst.data(),
        )
    elif truth == "ok":
        ctx.check(
            reported is True,
            f"rejects-valid-route:{how}",
            lambda: f"reported infeasible though every constraint holds: {obs} {viol}",
            inst.data(),
        )
    return truth


def case(ctx, i, rng):
    jit = ctx.jit
    kind = rng.choice(("bound", "bound", "bound", "random", "strategy", "edit", "edit", "planning", "algorithm"))
    if kind in ("bound", "edit", "planning"):
        inst = gen.relaxed(rng, rng.choice((1, 1, 2, 3, 4, 6, 9)), rng.choice((1, 2, 3)))
    else:
        inst = gen.instance(rng)
    ctx.note(inst.tags)

    if kind == "bound":
        vehicle = inst.vehicles[0]
        order = gen.plan_order(rng, rng.sample(inst.trips, rng.randint(0, len(inst.trips))), rng.choice((0.0, 0.6, 0.9)))
        merge = rng.random() < 0.15
        requested = None
        shape = gen.spec_route(vehicle, order, merge, rng)
        if not merge and rng.random() < 0.4:
            rows = oracle.simulate(inst, shape)
            requested = [
                r["start"] + rng.choice((0.0, 1.0, 12.5)) if rng.random() < 0.3 else None for r in rows
            ]
        which, eps = gen.tighten(rng, inst, vehicle, order, requested if not merge else None)
        ctx.count(f"bound:{which}")
        built = Built(jit, inst)
        route = None
        if not merge and requested is None and rng.random() < 0.6:
            warm = rng.random() < 0.6
            route = build.append(jit, built, rng, vehicle, order, build.touch if warm else None)
        else:
            route = build.direct(jit, built, vehicle, gen.spec_route(vehicle, order, False) if not merge else shape, requested)
        ctx.sample(dict(instance=inst.data(), plan=shape["stops"], bound=which, margin=eps))
        judge(ctx, inst, route, f"{kind}:{which}")
        for pt in route.planned_trips:
            judge_trip(ctx, inst, route, pt)
    elif kind == "random":
        built = Built(jit, inst)
        route, shape, order = build.random_route(jit, built, rng)
        judge(ctx, inst, route, kind)
        for pt in route.planned_trips:
            judge_trip(ctx, inst, route, pt)
    elif kind == "strategy":
        built = Built(jit, inst)
        vehicle = rng.choice(inst.vehicles)
        name = rng.choice(workload.STRATEGIES)
        strategy = getattr(jit, name)(only_feasible=False)
        route = jit.Route(built.vehicles[vehicle.id])
        for t in rng.sample(inst.trips, min(5, len(inst.trips))):
            candidates = strategy.compute(route, built.trips[t.id])
            if not candidates:
                continue
            for c in rng.sample(candidates, min(6, len(candidates))):
                judge(ctx, inst, c, name)
            good = [c for c in candidates if c.feasible]
            route = rng.choice(good or candidates)
            judge(ctx, inst, route, name)
    elif kind == "edit":
        edit(ctx, rng, inst)
    elif kind == "planning":
        built = Built(jit, inst)
        used, routes = set(), []
        for vehicle in inst.vehicles:
            trips = [t for t in inst.trips if t.id not in used and rng.random() < 0.5]
            used |= {t.id for t in trips}
            if rng.random() < 0.3:
                vehicle.cap = 1.0
                built = None
        built = Built(jit, inst)
        used, truths = set(), []
        for vehicle in inst.vehicles:
            trips = [t for t in inst.trips if t.id not in used and rng.random() < 0.5]
            used |= {t.id for t in trips}
            route, _, _ = build.random_route(jit, built, rng, vehicle, trips)
            routes.append(route)
            truths.append(judge(ctx, inst, route, kind))
        result = built.result(routes)
        ctx.count("plannings_judged")
        if "grey" not in truths:
            want = all(t == "ok" for t in truths)
            ctx.check(result.planning.feasible is want, "planning-feasibility", f"{truths} -> {result.planning.feasible}")
            ctx.check(result.feasible is want, "result-feasibility", f"{truths} -> {result.feasible}")
    else:
        built = Built(jit, inst)
        name, desc, algorithm = workload.scenario(jit, built, rng, ("insertion", "local-search", "local-search"))
        ctx.note((name, desc))
        result = algorithm.optimize()
        for route in result.routes:
            judge(ctx, inst, route, name)


def judge_trip(ctx, inst, route, pt):
    """The feasibility of one planned request: its windows, its ride limit, the loads at its two stops."""
    obs = observe.route(route)
    trips = inst.t()
    tr = trips[pt.trip.identifier]
    v = inst.v()[obs["vehicle"]]
    a = next(s for s in obs["stops"] if tr.id in s["p"])
    b = next(s for s in obs["stops"] if tr.id in s["d"])
    times = oracle.trip_times(inst, obs)[tr.id]
    load, amounts = 0.0, []
    for s in obs["stops"]:
        load += sum(trips[x].cap for x in s["p"]) - sum(trips[x].cap for x in s["d"])
        if s is a or s is b:
            amounts.append(load - v.cap)
            for x in s["p"]:
                w = oracle.trip_windows(inst, trips[x])
                amounts += [w[0] - s["start"], s["start"] - w[1]]
            for x in s["d"]:
                w = oracle.trip_windows(inst, trips[x])
                amounts += [w[2] - s["start"], s["start"] - w[3]]
    amounts.append(times[1] - times[0] - tr.timeout)
    worst = max(amounts)
    ctx.count("planned_trips_judged")
    if worst <= oracle.TOL:
        ctx.check(pt.feasible is True, "rejects-valid-trip", lambda: f"{tr.id} in {obs}", inst.data())
    elif worst > oracle.EB + oracle.TOL:
        ctx.check(pt.feasible is False, "accepts-violating-trip", lambda: f"{tr.id} by {worst} in {obs}", inst.data())


def edit(ctx, rng, inst):
    """Long-lived routes of a long-lived planning under a random sequence of public edits, judged after every one of them."""
    jit = ctx.jit
    if rng.random() < 0.3:  # several requests at one place, so that stops come to be shared
        place = inst.trips[0].o
        for t in inst.trips[: rng.randint(1, len(inst.trips))]:
            t.o.x, t.o.y = place.x, place.y
    for v in inst.vehicles:
        order = gen.plan_order(rng, inst.trips, 0.7)
        for _ in range(rng.choice((1, 1, 2))):
            if order:
                gen.tighten(rng, inst, v, order)
    built = Built(jit, inst)
    lives = [model.Live(jit, built, rng, v, merge=True) for v in inst.vehicles]
    result = built.result([live.route for live in lives])
    truths = {live: judge(ctx, inst, live.route, "edit:new") for live in lives}
    taken = set()
    for _ in range(rng.choice((3, 5, 8))):
        live = rng.choice(lives)
        free = [t for t in inst.trips if t.id not in taken]
        op = rng.choice(("append", "append", "append", "remove", "delay", "reset", "waypoint", "drop", "share", "share"))
        if op == "append":
            if not free:
                continue
            done = live.append(rng.choice(free), *sorted((rng.randint(0, len(live.model) - 2), rng.randint(0, len(live.model) - 2))))
        elif op == "share" and {t.id for t in live.outside()} - {t.id for t in free}:
            continue
        else:
            done = getattr(live, op)()
        taken = {i for x in lives for i in x.inside()}
        if not done:
            continue
        ctx.count("edited")
        ctx.count(f"edit:{op}")
        truths[live] = judge(ctx, inst, live.route, f"edit:{op}")
        if rng.random() < 0.3:
            build.touch(live.route)
        for pt in live.route.planned_trips:
            judge_trip(ctx, inst, live.route, pt)
        if "grey" not in truths.values():
            want = all(t == "ok" for t in truths.values())
            ctx.count("plannings_reasked")
            ctx.check(result.planning.feasible is want, "planning-feasibility-later", lambda: f"{truths.values()} {live.ops}", inst.data())
            ctx.check(result.feasible is want, "result-feasibility-later", lambda: f"{truths.values()} {live.ops}", inst.data())
