"""Improvement procedures never hand back something worse than what they were given or have found."""
from .. import build, gen, observe, oracle, workload
from ..inst import Built

CASES = dict(quick=1900, thorough=34000)
REQUIRED = {"searches": 300, "improved": 60, "iterated": 150, "episodes_differ": 20, "resumed_insertions": 100,
            "grasp": 50, "sequential_dar": 50, "rounds": 300, "arbitrary_starts": 60, "bonus_starts": 15, "handmade_plans": 150, "improving_episodes": 300, "restarted_episodes": 60, "asked_again": 120, "scripted": 150, "scripted_setbacks": 60, "scripted_searches": 40,
            "episode_seeds": 100}
RULE = (
    "case = a random run of local search / iterated / sequential / GRASP / construction resumed from a partial plan; the "
    "objective of every intermediate planning is recomputed from the observed routes; non-trivial = input and output (or "
    "two episodes) have different objective values; distinct = by those values and the algorithm"
)
KINDS = ("local-search", "local-search", "iterative", "iterative", "sequential", "sequential-default", "grasp",
         "insertion-initial", "rounds", "rounds", "scripted", "scripted")


def value(inst, result):
    return oracle.objective_value(inst, inst.objective, observe.routes(result.routes))


def worse(a, b):
    """a is worse than b (maximisation, lexicographic) beyond rounding."""
    for x, y in zip(a, b):
        if abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y)):
            continue
        return x < y
    return False


def describe_trips(result):
    return {
        (t.identifier, r.vehicle.identifier)
        for r in result.routes
        for t in r.trips
    }


def within(node, cls):
    while node is not None:
        if type(node.algorithm) is cls:
            return True
        node = node.parent
    return False


def judge(ctx, inst, node, name):
    jit = ctx.jit
    cls = type(node.algorithm)
    out = value(inst, node.result)
    if cls is jit.LocalSearchAlgorithm:
        before = node.before
        ctx.count("searches")
        if before != out:
            ctx.count("improved")
            ctx.sig("local", before, out)
        ctx.check(
            not worse(out, before),
            f"local-search-worsens:{node.algorithm.strategy_cls.__name__}",
            lambda: f"[{name}] {before} -> {out}",
            inst.data(),
        )
        served_in = {t.identifier for r in node.initial.routes for t in r.trips}
        served_out = {t.identifier for r in node.result.routes for t in r.trips}
        ctx.check(
            served_in == served_out,
            "local-search-changes-served-requests",
            lambda: f"[{name}] {sorted(served_in)} -> {sorted(served_out)}",
            inst.data(),
        )
    elif cls is jit.IterativeAlgorithm:
        ctx.count("iterated")
        values = [value(inst, c.result) for c in node.children]
        ctx.check(
            len(values) == node.algorithm.episodes,
            "episodes-run",
            lambda: f"[{name}] {len(values)} episodes instead of {node.algorithm.episodes}",
        )
        if len(set(values)) > 1:
            ctx.count("episodes_differ")
            ctx.sig("iterative", values)
        ctx.check(
            all(not worse(out, v) for v in values),
            "iterated-not-best-episode",
            lambda: f"[{name}] returned {out} of {values}",
            inst.data(),
        )
        starts = [c.initial for c in node.children]
        if within(node, jit.GraspAlgorithm) and isinstance(starts[0], jit.Result) and not name.startswith("scripted"):
            # the improving phase of GRASP goes on from what it has reached
            best = value(inst, starts[0])
            for k, c in enumerate(node.children):
                ctx.count("improving_episodes")
                ctx.check(
                    isinstance(c.initial, jit.Result) and not worse(value(inst, c.initial), best),
                    "improving-phase-not-from-best",
                    lambda: f"[{name}] episode {k} of {len(starts)}, best was {best}",
                    inst.data(),
                )
                best = values[k] if worse(best, values[k]) else best
        if node.algorithm.restart_mode and node.parent is None and len(starts) > 1:
            ctx.count("restarted_episodes", len(starts))
            ctx.check(all(s is starts[0] for s in starts), "episode-did-not-restart", f"[{name}]")
        if not node.algorithm.restart_mode and len(node.children) > 1:
            best = None
            for k, c in enumerate(node.children):
                if k and isinstance(c.initial, jit.Result):
                    ctx.count("continued_episodes")
                    ctx.check(
                        not worse(value(inst, c.initial), best),
                        "episode-not-from-best",
                        lambda: f"[{name}] episode {k} started from {value(inst, c.initial)}, best was {best}",
                        inst.data(),
                    )
                elif k:
                    ctx.violation("episode-without-initial", f"[{name}] episode {k} has no initial solution")
                if best is None or worse(best, values[k]):
                    best = values[k]
    elif cls is jit.InsertionAlgorithm and node.initial is not None:
        ctx.count("resumed_insertions")
        a, b = describe_trips(node.initial), describe_trips(node.result)
        if a != b:
            ctx.sig("resumed", sorted(a), sorted(b))
        ctx.check(a <= b, "initial-requests-lost", lambda: f"[{name}] lost {sorted(a - b)}", inst.data())
        if inst.objective == "DialARide":
            ctx.check(not worse(out, node.before), "resumed-insertion-worsens", lambda: f"[{name}] {node.before} -> {out}",
                      inst.data())
        order = {r.vehicle.identifier: tags(r) for r in node.result.routes}
        for r in node.initial.routes:
            old = tags(r)
            new = [x for x in order.get(r.vehicle.identifier, []) if x in set(old)]
            ctx.check(new == old, "initial-order-changed", lambda: f"[{name}] {old} -> {new}", inst.data())
    elif cls is jit.SequentialAlgorithm:
        if node.initial is not None and inst.objective == "DialARide" and node.children and not name.startswith("scripted"):
            ctx.count("sequential_dar")
            if not any(type(c.algorithm) is jit.InsertionAlgorithm and c.initial is None for c in node.children):
                ctx.check(
                    not worse(out, node.before), "sequential-worsens", lambda: f"[{name}] {node.before} -> {out}", inst.data()
                )
        for a, b in zip(node.children, node.children[1:]):
            if hasattr(b.algorithm, "initial"):
                ctx.check(b.initial is a.result, "sequence-not-chained", lambda: f"[{name}] {a.cls} -> {b.cls}")
        if node.children:
            ctx.check(
                value(inst, node.children[-1].result) == out, "sequence-result", lambda: f"[{name}] {out}", inst.data()
            )
    elif cls is jit.GraspAlgorithm:
        ctx.count("grasp")
        if name.startswith("scripted"):  # its phases do as they are told, not as they should
            found = [value(inst, c.result) for c in node.children[0].children]
            ctx.check(all(not worse(out, v) for v in found), "grasp-not-best-episode", lambda: f"{out} of {found}", inst.data())
        elif inst.objective == "DialARide":
            for sub in node.walk():
                if sub is not node:
                    v = value(inst, sub.result)
                    ctx.check(not worse(out, v), "grasp-not-best", lambda: f"{out} but {sub.cls} found {v}", inst.data())


def tags(route):
    return [("p", pt.trip.identifier) for s in route.stops for pt in []] or [
        x
        for s in route.stops
        for x in [("p", i) for i in sorted(p.trip.identifier for p in s.pickup_planned_trips)]
        + [("d", i) for i in sorted(p.trip.identifier for p in s.delivery_planned_trips)]
    ]


def rounds(ctx, rng, inst, built):
    """The improvement step itself, applied again and again: every step at least as good, same requests served."""
    jit = ctx.jit
    draw = rng.random()
    if draw < 0.4:
        result = workload.first_solution(jit, built, rng)
    elif draw < 0.6:
        # plans worth something at risk: rides whose bonus is easily lost by moving them
        inst = gen.hashcode(rng, rng.choice((3, 5, 7)), rng.choice((2, 3)))
        for t in inst.trips:
            t.bonus = float(rng.choice((0, 10, 40)))
            t.d.l = max(t.d.l, t.d.l + rng.choice((0, 30, 200)))
        built = Built(jit, inst)
        result = workload.first_solution(jit, built, rng)
        ctx.count("bonus_starts")
    else:
        # any plan may be handed over to be improved, not only one that the library constructed
        inst = gen.relaxed(rng, rng.choice((2, 3, 4, 5)), rng.choice((1, 2, 2, 3)))
        built = Built(jit, inst)
        result = jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), arbitrary(jit, built, rng), 0.0)
        ctx.count("arbitrary_starts")
    for _ in range(rng.choice((2, 4, 6))):
        strategy = getattr(jit, rng.choice(workload.SEARCHES))
        before = value(inst, result)
        served = {t.identifier for r in result.routes for t in r.trips}
        new = strategy(result).improve()
        after = value(inst, new)
        ctx.count("rounds")
        if before != after:
            ctx.sig("round", strategy.__name__, before, after)
            ctx.count("improved")
        errs = oracle.assignment_errors(inst, observe.routes(new.routes))
        ctx.check(not errs, f"step-breaks-assignment:{strategy.__name__}", lambda: f"{errs}", inst.data())
        ctx.check(not worse(after, before), f"step-worsens:{strategy.__name__}", lambda: f"{before} -> {after}", inst.data())
        ctx.check(
            served == {t.identifier for r in new.routes for t in r.trips},
            f"step-changes-served:{strategy.__name__}",
            lambda: f"{served}",
            inst.data(),
        )
        ctx.check(value(inst, result) == before, f"step-touches-input:{strategy.__name__}", "", inst.data())
        result = new


def arbitrary(jit, built, rng):
    """A planning with some of the requests spread over the vehicles in any order."""
    trips = rng.sample(built.inst.trips, rng.randint(0, len(built.inst.trips)))
    share = {v.id: [] for v in built.inst.vehicles}
    for t in trips:
        share[rng.choice(built.inst.vehicles).id].append(t)
    routes = set()
    for v in built.inst.vehicles:
        shape = gen.spec_route(v, gen.plan_order(rng, share[v.id], rng.choice((0.0, 0.6))))
        routes.add(build.direct(jit, built, v, shape))
    return jit.Planning(routes)


def scripted(ctx, rng):
    """Episodes, phases and improvement steps whose plannings are dictated, so that they get better and worse at will."""
    jit = ctx.jit
    inst = gen.relaxed(rng, rng.choice((2, 3, 4)), rng.choice((1, 2)))
    built = Built(jit, inst)
    ctx.count("scripted")

    pool = [arbitrary(jit, built, rng) for _ in range(4)]
    worth = {id(p): oracle.objective_value(inst, inst.objective, observe.routes(p.routes)) for p in pool}
    seen = []

    class Dictated(jit.Algorithm):
        def __init__(self, initial=None, seed=None, **kwargs):
            super().__init__(**kwargs)
            self.initial, self.seed = initial, seed

        def _optimize(self):
            seen.append((self.initial, self.seed, rng.choice(pool)))
            return seen[-1][2]

    class Steps(jit.LocalSearchStrategy):
        def __init__(self, result, *args, **kwargs):
            super().__init__(result, with_copy=False)

        def _improve(self):
            raise NotImplementedError

        def improve(self):
            new = jit.Result(self.result.algorithm, rng.choice(pool), 0.0)
            seen.append((self.result, None, new.planning))
            return new

    common = dict(fleet=built.fleet, job=built.job)
    start = jit.Result(jit.NaiveAlgorithm(**common), rng.choice(pool), 0.0)
    how = rng.choice(("iterative", "iterative", "sequential", "local-search", "local-search", "grasp"))
    name = f"scripted {how}"
    ctx.note(dict(kind=name))
    if how == "iterative":
        episodes = rng.choice((1, 2, 4, 6))
        algorithm = jit.IterativeAlgorithm(
            **common, algorithm_cls=Dictated, episodes=episodes, restart_mode=rng.random() < 0.3, seed=rng.randrange(1000)
        )
    elif how == "sequential":
        steps = [(Dictated, {}) for _ in range(rng.choice((1, 2, 4)))]
        algorithm = jit.SequentialAlgorithm(**common, algorithms_cls=steps, initial=rng.choice((None, start)))
    elif how == "grasp":
        algorithm = jit.GraspAlgorithm(
            **common,
            first_solution_kwargs=dict(algorithm_cls=Dictated, episodes=rng.choice((1, 3))),
            local_search_kwargs=dict(algorithms_cls=[(Dictated, {})]),
            episodes=rng.choice((1, 2, 3)),
        )
    else:
        threshold = rng.choice((1, 2, 4))
        algorithm = jit.LocalSearchAlgorithm(**common, initial=start, strategy_cls=Steps, no_improvement_threshold=threshold)

    def enter(node):
        if isinstance(node.initial, jit.Result):
            node.before = value(inst, node.initial)

    with workload.traced(jit, enter) as roots:
        result = algorithm.optimize()
    values = [worth[id(p)] for _, _, p in seen]
    if any(worse(b, a) for a, b in zip(values, values[1:])):
        ctx.count("scripted_setbacks")
    ctx.sig(name, values)
    if how == "local-search":
        ctx.count("scripted_searches")
        best, idle = worth[id(start.planning)], 0
        for (given, _, _), v in zip(seen, values):
            ctx.check(not worse(worth[id(given.planning)], best), "search-step-not-from-best", lambda: f"{given} {values}")
            idle = 0 if worse(best, v) else idle + 1
            best = v if worse(best, v) else best
        ctx.check(
            idle >= algorithm.no_improvement_threshold,
            "search-gives-up-early",
            lambda: f"{idle} idle steps, {algorithm.no_improvement_threshold} allowed: {values}",
        )
        ctx.check(not worse(value(inst, result), best), "search-loses-best", lambda: f"{value(inst, result)} of {values}")
    else:
        for root in roots:
            for node in root.walk():
                judge(ctx, inst, node, name)
                if type(node.algorithm) is jit.IterativeAlgorithm and len(node.children) > 1:
                    seeds = [c.algorithm.seed for c in node.children if type(c.algorithm) is Dictated]
                    if len(seeds) > 1:
                        ctx.count("episode_seeds")
                        ctx.check(len(set(seeds)) == len(seeds), "episodes-share-randomness", lambda: f"{seeds}")
                    if node.algorithm.restart_mode and type(node.children[0].algorithm) is Dictated:
                        ctx.check(
                            all(c.initial is None for c in node.children), "episode-did-not-restart", lambda: f"{len(seen)}"
                        )


def case(ctx, i, rng):
    jit = ctx.jit
    objective = "DialARide" if rng.random() < 0.6 else None
    inst, built = workload.make(ctx, rng, objective=objective, m=rng.choice((1, 2, 2, 3, 4)))
    kind = rng.choice(KINDS)
    if kind == "scripted":
        scripted(ctx, rng)
        return
    if kind == "rounds":
        rounds(ctx, rng, inst, built)
        return
    initial = None
    if kind in workload.FROM_PLAN and rng.random() < 0.5:
        inst, built, initial = workload.planned(ctx, rng)
    name, desc, algorithm = workload.scenario(jit, built, rng, (kind,), initial)
    ctx.note(dict(kind=name, configuration=desc, tags=inst.tags))
    ctx.count(f"kind:{name}")

    def enter(node):
        if isinstance(node.initial, jit.Result):
            node.before = value(inst, node.initial)

    with workload.traced(jit, enter) as roots:
        algorithm.optimize()
        if rng.random() < 0.25:  # the same object asked to solve again
            algorithm.optimize()
            ctx.count("asked_again")
    for root in roots:
        for node in root.walk():
            judge(ctx, inst, node, name)
    if len(roots) > 1:  # the second answer starts where the first one did
        a, b = roots
        while True:
            ctx.check(a.initial is b.initial, "asked-again-starts-elsewhere", lambda: f"[{name}] {a.cls} {desc}", inst.data())
            if not a.children or not b.children:
                break
            a, b = a.children[0], b.children[0]
    ctx.sample(dict(instance=inst.data(), kind=name, configuration=desc, objective=value(inst, roots[-1].result)))
