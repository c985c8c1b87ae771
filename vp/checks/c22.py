"""Randomised methods draw from the seed they are given, and from nothing else."""
import random

from .. import build, gen, hashing, observe, workload
from ..inst import Built

CASES = dict(quick=800, thorough=9000)
REQUIRED = {"repeats": 300, "inner_runs": 1300, "alone": 130, "seed_sets": 100, "seeds": 800, "draws_differ": 100, "episodes_drawn": 450,
            "samples": 30, "long_searches": 8, "long_constructions": 20, "hidden_repeats": 90, "iterative_repeats": 35, "grasp_repeats": 35, "handed_down": 15}
RULE = (
    "case = one solving method run three times on the same problem with the same seed (sets iterated in the same order each "
    "time, the process-wide generator seeded differently each time, an unrelated run in between), or run with eight seeds on a "
    "problem where every seed has at least 48 equally allowed construction orders, or one strategy sampling a long route, or the seeds that reach a user's own algorithm nested in the library's; what every "
    "inner algorithm returned is compared, and the state of the process-wide generator before and after; non-trivial = at least one "
    "request served; distinct = by what the runs returned"
)


def dump(roots):
    return [(n.cls, observe.routes(n.result.routes)) for root in roots for n in root.walk()]


def outcome(ctx, jit, make, noise, order):
    """Runs a freshly made algorithm; everything it and its parts returned."""
    hashing.reseed(order)
    algorithm = make()
    random.seed(noise)
    hashing.reseed((order, "run"))
    before = random.getstate()
    with workload.traced(jit) as roots:
        algorithm.optimize()
    ctx.check(random.getstate() == before, "process-wide-generator-used", lambda: f"by {type(algorithm).__name__}")
    return dump(roots)


def fix_hashes(built):
    for x in list(built.trips.values()) + list(built.fleet.vehicles):
        hash(x)


def repeat(ctx, rng):
    jit = ctx.jit
    handmade = None
    draw = rng.random()
    kinds = workload.ALL
    if draw < 0.3:
        inst, built, handmade = workload.planned(ctx, rng)
        ctx.count("hidden_repeats")
        kinds = workload.FROM_PLAN + ("grasp",)
    elif draw < 0.4:  # more than the 128 pairs of positions that are tried one by one
        inst = gen.long_line(rng, rng.choice((9, 10, 12)), rng.choice((1, 1, 2)))
        built = Built(jit, inst)
        ctx.count("long_constructions")
        kinds = ("insertion", "iterative")
    elif draw < 0.43:
        long_search(ctx, rng)
        return
    else:
        inst, built = workload.make(ctx, rng, n=rng.choice((2, 3, 4, 6)), m=rng.choice((1, 2, 2, 3)))
    fix_hashes(built)
    salt = rng.random()

    def make():
        return workload.scenario(jit, built, random.Random(salt), kinds, handmade)[2]

    name, desc, _ = workload.scenario(jit, built, random.Random(salt), kinds, handmade)
    ctx.note(dict(kind=name, configuration=desc, tags=inst.tags))
    compare(ctx, jit, make, inst, name, rng)
    if name in ("iterative", "grasp"):
        ctx.count(f"{name}_repeats")


def compare(ctx, jit, make, inst, name, rng):
    order = rng.random()
    first = outcome(ctx, jit, make, "a", order)
    ctx.count("repeats")
    ctx.count("inner_runs", len(first))
    if len(first) == 1:
        ctx.count("alone")
    if rng.random() < 0.5:  # another problem, with other draws
        other, built = workload.make(ctx, rng, n=3, m=2)
        workload.scenario(jit, built, rng, ("iterative", "grasp", "insertion"))[2].optimize()
    for noise in ("b", "a"):
        again = outcome(ctx, jit, make, noise, order)
        if not ctx.check(
            again == first,
            f"not-repeatable:{name}",
            lambda: f"{[x for x, y in zip(first, again) if x != y][:1]} then {[y for x, y in zip(first, again) if x != y][:1]}"[:1500],
            inst.data(),
        ):
            return
    if any(s["p"] for _, rs in first for r in rs for s in r["stops"]):
        ctx.sig(first[-1], first[0])


def long_search(ctx, rng):
    """A local search on routes with more pairs of positions than are tried one by one."""
    jit = ctx.jit
    inst = gen.loose(rng, 10, 2, "DialARide")
    built = Built(jit, inst)
    fix_hashes(built)
    k = rng.choice((1, 1, 2))
    shares = (inst.trips[:k], inst.trips[k:])
    orders = [gen.plan_order(rng, s, 0.6) for s in shares]

    seed, steps = rng.randrange(1000), rng.random() < 0.5

    def make():
        routes = {build.direct(jit, built, v, gen.spec_route(v, o)) for v, o in zip(inst.vehicles, orders)}
        plan = jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), jit.Planning(routes), 0.0)
        common = dict(fleet=built.fleet, job=built.job, initial=plan, seed=seed)
        left = [1]

        class Once(jit.ReallocationLocalSearchStrategy):
            """Idle after one step (each takes a second on such routes)."""

            def improve(self, *args, **kwargs):
                left[0] -= 1
                return super().improve(*args, **kwargs) if left[0] >= 0 else self.result

        if steps:
            return jit.SequentialAlgorithm(**common, algorithms_cls=[(jit.LocalSearchAlgorithm, dict(strategy_cls=Once))])
        return jit.LocalSearchAlgorithm(**common, strategy_cls=Once)

    ctx.note(dict(kind="long-search"))
    ctx.count("long_searches")
    compare(ctx, jit, make, inst, "long-search", rng)


def seeds_matter(ctx, rng):
    """Eight seeds where every seed has at least 48 different plans to draw from."""
    jit = ctx.jit
    inst = gen.loose(rng, rng.choice((5, 6)), 1)
    built = Built(jit, inst)
    fix_hashes(built)
    insertion = dict(
        iterator_cls=getattr(jit, rng.choice(("RankingInsertionIterator", "BestStatelessInsertionIterator"))),
        strategy_cls=jit.TailInsertionStrategy,  # so that the order of insertion is the order of visit
        criterion_cls=getattr(jit, rng.choice(workload.CRITERIA)),
        randomized_size=rng.choice((3, 4)),
    )
    common = dict(fleet=built.fleet, job=built.job)
    kind = rng.choice(("insertion", "iterative", "iterative", "sequential", "grasp", "grasp", "grasp-default"))

    def make(seed):
        if kind == "insertion":
            return jit.InsertionAlgorithm(**common, **insertion, seed=seed)
        if kind == "iterative":
            return jit.IterativeAlgorithm(**common, **insertion, episodes=6, seed=seed)
        if kind == "sequential":
            return jit.SequentialAlgorithm(**common, algorithms_cls=[(jit.InsertionAlgorithm, dict(insertion))], seed=seed)
        search = dict(strategy_cls=jit.OneShiftLocalSearchStrategy)
        first = dict(insertion, episodes=1)
        return jit.GraspAlgorithm(
            **common, first_solution_kwargs=first, local_search_kwargs=search, episodes=6 if kind == "grasp" else 1, seed=seed
        )

    ctx.note(dict(kind=f"seeds of {kind}"))
    seen = set()
    order = rng.random()
    for seed in rng.sample(range(10**6), 8):
        ctx.count("seeds")
        hashing.reseed(order)
        with workload.traced(jit) as roots:
            make(seed).optimize()
        drawn = [
            repr(observe.routes(n.result.routes))
            for root in roots
            for n in root.walk()
            if type(n.algorithm) is jit.InsertionAlgorithm and n.initial is None
        ]
        seen.add(tuple(drawn))
        if len(drawn) == 6:
            ctx.count("episodes_drawn")
            ctx.check(len(set(drawn)) > 1, f"episodes-draw-alike:{kind}", lambda: f"{len(drawn)} times {drawn[0]}"[:800], inst.data())
    ctx.count("seed_sets")
    if len(seen) > 1:
        ctx.count("draws_differ")
        ctx.sig(sorted(seen)[:2])
    ctx.check(len(seen) > 1, f"seed-ignored:{kind}", lambda: f"8 seeds, all draw {list(seen)[0]}"[:800], inst.data())


def handed_down(ctx, rng):
    """The seeds that reach algorithms of the user's own, however deeply they are nested."""
    jit = ctx.jit
    inst = gen.loose(rng, rng.choice((1, 2)), 1)
    built = Built(jit, inst)
    drawn = []

    class Drawing(jit.Algorithm):
        def __init__(self, seed=56, initial=None, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self.random = random.Random(seed)
            self.initial = initial

        def _optimize(self):
            drawn.append(self.random.random())
            if self.initial is not None:
                return self.initial.planning
            return jit.InsertionAlgorithm(fleet=self.fleet, job=self.job).optimize().planning

    episodes = rng.randint(2, 5)
    common = dict(fleet=built.fleet, job=built.job)
    kind = rng.choice(("restarts", "continued", "sequential", "nested", "grasp"))

    def make(seed):
        kw = {} if seed is None else dict(seed=seed)
        if kind in ("restarts", "continued"):
            return jit.IterativeAlgorithm(**common, algorithm_cls=Drawing, episodes=episodes, restart_mode=kind == "restarts", **kw)
        if kind == "sequential":
            return jit.SequentialAlgorithm(**common, algorithms_cls=[(Drawing, {})] * episodes, **kw)
        if kind == "nested":
            steps = [(jit.IterativeAlgorithm, dict(algorithm_cls=Drawing, episodes=episodes, restart_mode=rng_mode)), (Drawing, {})]
            return jit.SequentialAlgorithm(**common, algorithms_cls=steps, **kw)
        return jit.GraspAlgorithm(
            **common,
            first_solution_kwargs=dict(algorithm_cls=Drawing, episodes=episodes),
            local_search_kwargs=dict(algorithms_cls=[(Drawing, {})]),
            **kw,
        )

    rng_mode = rng.random() < 0.5
    ctx.note(dict(kind=f"seeds handed down by {kind}"))

    def run(seed):
        drawn.clear()
        random.seed(rng.random())
        make(seed).optimize()
        return tuple(drawn)

    ctx.count("handed_down")
    a, b = rng.sample(range(10**6), 2)
    seen = {s: run(s) for s in (a, b, None)}
    for s, draws in seen.items():
        ctx.check(run(s) == draws, f"handed-down-not-repeatable:{kind}", lambda: f"seed {s}: {draws} then {tuple(drawn)}")
        ctx.check(len(set(draws)) == len(draws) > 1, f"episodes-draw-alike:{kind}", lambda: f"seed {s}: {draws}")
    ctx.check(len(set(seen.values())) == 3, f"seed-ignored:{kind}", lambda: f"{seen}")
    ctx.sig(kind, seen)


def sampling(ctx, rng):
    """A sampling strategy on a route with more pairs of positions than it looks at."""
    jit = ctx.jit
    inst = gen.loose(rng, rng.choice((10, 11)), 1)
    built = Built(jit, inst)
    vehicle = inst.vehicles[0]
    route = build.direct(jit, built, vehicle, gen.spec_route(vehicle, gen.plan_order(rng, inst.trips[1:], 0.5)))
    pending = built.trips[inst.trips[0].id]
    ctx.note(dict(kind="sampling"))
    count = rng.choice((8, 20))

    def sample(seed, noise):
        random.seed(noise)
        before = random.getstate()
        kw = {} if seed is None else dict(seed=seed)
        out = jit.SamplingInsertionStrategy(**kw).compute(route, pending, count)
        ctx.check(random.getstate() == before, "process-wide-generator-used", "by a sampling strategy")
        return sorted(repr(observe.route(r)["stops"]) for r in out)

    ctx.count("samples")
    a = rng.randrange(1000)
    first = sample(a, 1)
    sample(a + 1, 1)
    ctx.check(sample(a, 2) == first, "sample-not-repeatable", f"seed {a}")
    ctx.check(sample(None, 1) == sample(None, 2), "sample-not-repeatable", "default seed")
    others = [sample(s, 1) for s in rng.sample(range(1000, 10**6), 5)]
    ctx.check(any(o != first for o in others), "seed-ignored:sampling", lambda: f"{count} of {len(route.stops)} stops")
    ctx.sig(first)


def case(ctx, i, rng):
    draw = rng.random()
    if draw < 0.04:
        handed_down(ctx, rng)
    elif draw < 0.7:
        repeat(ctx, rng)
    elif draw < 0.93:
        seeds_matter(ctx, rng)
    else:
        sampling(ctx, rng)
