"""Solvers only return plannings that satisfy every constraint."""
from .. import observe, oracle, workload

CASES = dict(quick=2800, thorough=34000)
REQUIRED = {"plannings": 1500, "routes_with_trips": 1500, "shared_rides": 300, "improved_by_search": 30,
            "kind:grasp": 50, "handmade_plans": 300, "reallocations": 300, "kind:local-search": 50, "slack:ride": 100, "slack:delivery_late": 100, "slack:capacity": 100}
RULE = (
    "case = one run of a random algorithm configuration on a random instance (tight windows, ride limits, loads, shifts, "
    "separate depots); every planning returned anywhere inside the run is re-judged from scratch against the instance "
    "data; non-trivial = serves at least one request with some constraint within 10 time units of its bound; distinct "
    "= by the margins of all constraints"
)
ASSUMPTIONS = [
    "violations within the documented tolerance (0.001) are accepted",
    "every vehicle of the instance can at least drive its empty route within its own shift",
]


def judge(ctx, inst, node, name):
    routes = observe.routes(node.result.routes)
    ctx.count("plannings")
    for r in routes:
        if r["vehicle"] not in inst.v() or any(i not in inst.t() for s in r["stops"] for i in s["p"] + s["d"]):
            continue  # judged by C02
        viol = oracle.violations(inst, r)
        if len(r["stops"]) > 2:
            ctx.count("routes_with_trips")
            near = [k for k, a in viol.items() if -10 < a]
            for k in near:
                ctx.count(f"slack:{k}")
            if near:
                ctx.sig(name, sorted((k, round(a, 6)) for k, a in viol.items()))
            onboard = 0
            for s in r["stops"]:
                onboard += len(s["p"]) - len(s["d"])
                if onboard > 1:
                    ctx.count("shared_rides")
                    break
        bad = oracle.broken(viol)
        ctx.check(
            not bad,
            f"infeasible-planning:{'+'.join(sorted(bad))}",
            lambda: f"[{name} / {node.cls}] {bad} in {r}",
            inst.data(),
        )
        # what could be scheduled at these times must also be physically executable from the visiting order alone
        earliest = oracle.simulate(inst, r)
        late = [
            (k, s["start"], e["start"]) for k, (s, e) in enumerate(zip(r["stops"], earliest)) if s["start"] < e["start"] - 1e-6
        ]
        ctx.check(not late, "impossible-times", lambda: f"[{name}] {late} in {r}", inst.data())
    ctx.check(node.result.feasible is True, "reported-infeasible", lambda: f"[{name} / {node.cls}] {routes}", inst.data())


def case(ctx, i, rng):
    initial, draw, algorithm = None, rng.random(), None
    if draw < 0.25:
        jit = ctx.jit
        inst, built, initial = workload.planned(ctx, rng, rng.choice((1, 2, 3, 4)), 2, True)
        if initial is not None:
            name, desc = "local-search", "reallocation of a far request"
            algorithm = jit.LocalSearchAlgorithm(
                initial=initial, strategy_cls=jit.ReallocationLocalSearchStrategy, fleet=built.fleet, job=built.job
            )
            ctx.count("reallocations")
    elif draw < 0.5:
        inst, built, initial = workload.planned(ctx, rng)
    else:
        inst, built = workload.make(ctx, rng)
    if algorithm is None:
        kinds = workload.FROM_PLAN if initial else workload.ALL
        name, desc, algorithm = workload.scenario(ctx.jit, built, rng, kinds, initial)
    ctx.note(dict(kind=name, configuration=desc, tags=inst.tags))
    ctx.count(f"kind:{name}")
    with workload.traced(ctx.jit) as roots:
        algorithm.optimize()
    for root in roots:
        for node in root.walk():
            if node.initial is not None and node.initial.optimization_value != node.result.optimization_value:
                if type(node.algorithm) is ctx.jit.LocalSearchAlgorithm:
                    ctx.count("improved_by_search")
            judge(ctx, inst, node, name)
    ctx.sample(dict(instance=inst.data(), kind=name, configuration=desc, planning=observe.routes(roots[-1].result.routes)))
