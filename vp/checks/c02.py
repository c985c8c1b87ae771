"""Every planning is a proper assignment of requests to vehicles."""
from .. import observe, oracle, workload

CASES = dict(quick=2400, thorough=30000)
REQUIRED = {"plannings": 1500, "served": 3000, "shared_rides": 300, "kind:grasp": 50, "kind:local-search": 50,
            "improved_by_search": 30, "resumed": 50, "handmade_plans": 300, "shared_stops": 40}
RULE = (
    "case = one run of a random algorithm configuration (construction, construction from a partial plan, each local "
    "search, iterated, sequential, GRASP) on a random instance; every planning returned anywhere inside the run is "
    "judged; non-trivial = it serves at least two requests; distinct = by its routes' stop sequences"
)


def judge(ctx, inst, node, name):
    routes = observe.routes(node.result.routes)
    ctx.count("plannings")
    served = sum(len(s["p"]) for r in routes for s in r["stops"])
    ctx.count("served", served)
    for r in routes:
        onboard = 0
        for s in r["stops"]:
            onboard += len(s["p"]) - len(s["d"])
            if len(s["p"]) + len(s["d"]) > 1:
                ctx.count("shared_stops")
            if onboard > 1:
                ctx.count("shared_rides")
                break
    if served > 1:
        ctx.sig([(r["vehicle"], [(s["p"], s["d"]) for s in r["stops"]]) for r in routes])
    errs = oracle.assignment_errors(inst, routes)
    ctx.check(
        not errs,
        "assignment:" + "+".join(sorted({e[0] for e in errs})),
        lambda: f"[{name} / {node.cls}] {errs[:6]} in {routes}",
        inst.data(),
    )
    wrong = [
        r
        for r in routes
        if tuple(r["stops"][0]["pos"]) != tuple(inst.v()[r["vehicle"]].o.pos)
        or tuple(r["stops"][-1]["pos"]) != tuple(inst.v()[r["vehicle"]].end.pos)
    ] if not errs else []
    ctx.check(not wrong, "depots", lambda: f"[{name}] {wrong}", inst.data())
    trips = inst.t()
    misplaced = [
        (i, s["pos"])
        for r in routes
        for s in r["stops"]
        for i, want in [(i, trips[i].o.pos) for i in s["p"] if i in trips]
        + [(i, trips[i].d.pos) for i in s["d"] if i in trips]
        if tuple(want) != tuple(s["pos"])
    ]
    ctx.check(not misplaced, "visited-elsewhere", lambda: f"[{name}] {misplaced}", inst.data())
    # the trips and vehicles are the very objects of the job and the fleet, and the live structure is consistent
    res = node.result
    known_t = {id(t) for t in res.job.trips}
    known_v = {id(v) for v in res.fleet.vehicles}
    foreign = [t.identifier for r in res.routes for t in r.trips if id(t) not in known_t]
    ctx.check(not foreign, "foreign-request-object", lambda: f"[{name}] {foreign}")
    ctx.check(all(id(r.vehicle) in known_v for r in res.routes), "foreign-vehicle-object", name)
    for r in res.routes:
        links = observe.link_errors(r)
        ctx.check(not links, "route-structure", lambda: f"[{name}] {links[:4]}", inst.data())
    counted = {t.identifier for t in res.completed_trips}
    loaded = {i for r in routes for s in r["stops"] for i in s["p"] if trips.get(i) and trips[i].cap != 0}
    ctx.check(counted == loaded, "completed-requests", lambda: f"[{name}] {counted} != {loaded}", inst.data())
    total = len(inst.trips)
    if total and node.result.job.trips and len(node.result.job.trips) == total:
        ctx.check(
            oracle.close(res.coverage_rate, len(loaded) / total),
            "coverage-rate",
            lambda: f"[{name}] {res.coverage_rate} != {len(loaded)}/{total}",
            inst.data(),
        )


def case(ctx, i, rng):
    initial = None
    if rng.random() < 0.4:
        inst, built, initial = workload.planned(ctx, rng)
    else:
        inst, built = workload.make(ctx, rng)
    name, desc, algorithm = workload.scenario(ctx.jit, built, rng, workload.FROM_PLAN if initial else workload.ALL, initial)
    ctx.note(dict(kind=name, configuration=desc, tags=inst.tags))
    ctx.count(f"kind:{name}")
    with workload.traced(ctx.jit) as roots:
        algorithm.optimize()
    for root in roots:
        for node in root.walk():
            if node.initial is not None:
                ctx.count("resumed")
                if type(node.algorithm) is ctx.jit.LocalSearchAlgorithm:
                    a, b = node.initial.optimization_value, node.result.optimization_value
                    if a != b:
                        ctx.count("improved_by_search")
            judge(ctx, inst, node, name)
    ctx.sample(dict(instance=inst.data(), kind=name, configuration=desc, planning=observe.routes(roots[-1].result.routes)))
