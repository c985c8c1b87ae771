"""Solver workloads: every algorithm of the library in many configurations, with the calls traced at their boundary."""
import contextlib

from . import build, gen, observe, oracle
from .inst import Built, Inst

CRITERIA = (
    "EarliestLastDepartureTimeRouteCriterion",
    "ShortestAveragePlannerTripDurationCriterion",
    "ShortestTimeRouteCriterion",
    "LongestTimeRouteCriterion",
    "LongestUtilTimeRouteCriterion",
    "HashCodeRouteCriterion",
)
STRATEGIES = ("TailInsertionStrategy", "SamplingInsertionStrategy", "IntensiveInsertionStrategy")
ITERATORS = ("RankingInsertionIterator", "StatelessInsertionIterator", "BestStatelessInsertionIterator")
SEARCHES = ("ReallocationLocalSearchStrategy", "OneShiftLocalSearchStrategy", "TwoOPTLocalSearchStrategy")


class Node:
    def __init__(self, algorithm, parent):
        self.algorithm = algorithm
        self.parent = parent
        self.children = []
        self.initial = getattr(algorithm, "initial", None)
        self.result = None
        self.before = None
        self.after = None
        self.index = None

    @property
    def cls(self):
        return type(self.algorithm).__name__

    def walk(self):
        yield self
        for c in self.children:
            yield from c.walk()


@contextlib.contextmanager
def traced(jit, on_enter=None, on_exit=None):
    """Records the tree of optimisation calls made inside the block (call before, return after)."""
    base = jit.Algorithm
    original = base.optimize
    stack, roots = [], []

    def optimize(self, *args, **kwargs):
        node = Node(self, stack[-1] if stack else None)
        (stack[-1].children if stack else roots).append(node)
        stack.append(node)
        try:
            if on_enter is not None:
                on_enter(node)
            node.result = original(self, *args, **kwargs)
            if on_exit is not None:
                on_exit(node)
            return node.result
        finally:
            stack.pop()

    base.optimize = optimize
    try:
        yield roots
    finally:
        base.optimize = original


def pick_insertion(jit, rng, rank=None):
    it = rng.choice(ITERATORS) if rank is None else rank
    kw = dict(
        iterator_cls=getattr(jit, it),
        strategy_cls=getattr(jit, rng.choice(STRATEGIES)),
        criterion_cls=getattr(jit, rng.choice(CRITERIA)),
    )
    if it == "RankingInsertionIterator":
        kw["neighborhood_max_size"] = rng.choice((None, 24, 3, 1))
        kw["randomized_size"] = rng.choice((1, 1, 2, 4))
        kw["seed"] = rng.randrange(1000)
    elif it == "BestStatelessInsertionIterator":
        kw["randomized_size"] = rng.choice((1, 1, 3))
        kw["seed"] = rng.randrange(1000)
    return kw


def describe(kw):
    out = {}
    for k, v in kw.items():
        if k in ("fleet", "job", "initial"):
            continue
        if isinstance(v, type):
            v = v.__name__
        elif isinstance(v, dict):
            v = describe(v)
        elif isinstance(v, (list, tuple)):
            v = [(c.__name__, describe(a)) for c, a in v]
        out[k] = v
    return out


def subset_job(jit, built, rng, k=None):
    """A job with some of the instance's requests (the same request objects)."""
    ids = [t.id for t in built.inst.trips]
    k = rng.randint(0, len(ids)) if k is None else k
    return jit.Job({built.trips[i] for i in rng.sample(ids, k)}, built.objective_cls)


def first_solution(jit, built, rng, job=None):
    kw = pick_insertion(jit, rng, rng.choice(("RankingInsertionIterator", "StatelessInsertionIterator")))
    return jit.InsertionAlgorithm(fleet=built.fleet, job=job or built.job, **kw).optimize()


def thin(jit, rng, result):
    """The same starting point without the routes of some vehicles (their requests, if any, are pending again)."""
    routes = sorted(result.routes, key=lambda r: r.vehicle.identifier)
    idle = [r for r in routes if not any(r.trips)]
    gone = rng.sample(idle, rng.randint(1, len(idle))) if idle and rng.random() < 0.7 else rng.sample(routes, rng.randint(0, len(routes)))
    return jit.Result(result.algorithm, jit.Planning({r for r in routes if not any(r is g for g in gone)}), 0.0)


def planned(ctx, rng, n=None, m=None, burden=None):
    """An instance and a feasible plan for it that no algorithm made (None when rounding spoilt it)."""
    jit = ctx.jit
    m = m or rng.choice((1, 2, 2, 3))
    if burden is None:
        burden = m > 1 and rng.random() < 0.15
    inst, orders = gen.hidden(rng, n or rng.choice((2, 3, 4, 5, 7)), m, burden)
    built = Built(jit, inst)
    routes = set()
    merge = rng.random() < 0.5
    for v in inst.vehicles:
        route = build.direct(jit, built, v, gen.spec_route(v, orders[v.id], merge, rng))
        seen = observe.route(route)
        rows = oracle.simulate(inst, seen, [x["start"] for x in seen["stops"]])
        # at a shared stop, a request leaves later than its own service ends, and its derived windows do not know
        derived = all(x["e"] <= x["start"] + oracle.TOL and x["start"] <= x["l"] + oracle.TOL for x in rows)
        if oracle.verdict(oracle.violations(inst, seen)) != "ok" or not derived:
            ctx.count("spoilt_plans")
            return inst, built, None
        routes.add(route)
    ctx.count("handmade_plans")
    return inst, built, jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), jit.Planning(routes), 0.0)


class Scenario(tuple):
    """(name, description, algorithm); `options` are the very objects that were handed to the algorithm."""

    options = None

    def options_changed(self):
        """What became of the options since."""
        now = describe(self.options)
        return None if now == self[1] else f"{self[1]} -> {now}"


def scenario(jit, built, rng, kinds, initial=None):
    """One solver run; returns (name, description, algorithm) without running the algorithm itself."""
    kind, kw, cls, extra = _scenario(jit, built, rng, kinds, initial)
    out = Scenario((kind, describe(kw), cls(fleet=built.fleet, job=built.job, **extra, **kw)))
    out.options = kw
    return out


def _scenario(jit, built, rng, kinds, initial):
    kind = rng.choice(kinds)
    if kind == "insertion":
        kw = pick_insertion(jit, rng)
        return kind, kw, jit.InsertionAlgorithm, {}
    if kind == "insertion-initial":
        kw = pick_insertion(jit, rng)
        initial = initial or first_solution(jit, built, rng, subset_job(jit, built, rng))
        if rng.random() < 0.25:
            initial = thin(jit, rng, initial)
        return kind, kw, jit.InsertionAlgorithm, dict(initial=initial)
    if kind == "local-search":
        initial = initial or first_solution(jit, built, rng)
        kw = dict(
            strategy_cls=getattr(jit, rng.choice(SEARCHES)),
            no_improvement_threshold=rng.choice((1, 1, 2)),
        )
        return kind, kw, jit.LocalSearchAlgorithm, dict(initial=initial)
    if kind == "iterative":
        kw = pick_insertion(jit, rng)
        kw.pop("seed", None)
        if kw["iterator_cls"] is jit.RankingInsertionIterator:
            kw["randomized_size"] = rng.choice((2, 4))
        kw["episodes"] = rng.choice((1, 2, 3))
        kw["restart_mode"] = rng.choice((True, True, False))
        kw["seed"] = rng.randrange(1000)
        return kind, kw, jit.IterativeAlgorithm, {}
    if kind == "sequential":
        steps = [(jit.InsertionAlgorithm, strip(pick_insertion(jit, rng)))]
        for _ in range(rng.choice((1, 2, 3))):
            steps.append((jit.LocalSearchAlgorithm, dict(strategy_cls=getattr(jit, rng.choice(SEARCHES)))))
        if rng.random() < 0.5:
            steps.append((jit.InsertionAlgorithm, strip(pick_insertion(jit, rng))))
        kw, extra = dict(algorithms_cls=steps, seed=rng.randrange(1000)), {}
        if initial is not None:
            steps[:] = steps[rng.choice((0, 1)):]
            extra["initial"] = initial
        return kind, kw, jit.SequentialAlgorithm, extra
    if kind == "sequential-default":
        initial = initial or first_solution(jit, built, rng, subset_job(jit, built, rng))
        return kind, {}, jit.SequentialAlgorithm, dict(initial=initial)
    if kind == "grasp":
        first = dict(
            episodes=rng.choice((1, 2)),
            randomized_size=rng.choice((1, 2, 3)),
            strategy_cls=getattr(jit, rng.choice(STRATEGIES)),
            criterion_cls=getattr(jit, rng.choice(CRITERIA)),
        )
        local = {}
        if rng.random() < 0.6:
            local["strategy_cls"] = getattr(jit, rng.choice(SEARCHES))
        if rng.random() < 0.3:
            local["no_improvement_threshold"] = 2
        kw = dict(
            first_solution_kwargs=first,
            local_search_kwargs=local,
            no_improvement_threshold=rng.choice((1, 2)),
            episodes=rng.choice((1, 2)),
            seed=rng.randrange(1000),
        )
        return kind, kw, jit.GraspAlgorithm, {}
    if kind == "naive":
        return kind, {}, jit.NaiveAlgorithm, {}
    raise ValueError(kind)


FROM_PLAN = ("insertion-initial", "local-search", "local-search", "sequential", "sequential-default")
ALL = ("insertion", "insertion-initial", "local-search", "iterative", "sequential", "sequential-default", "grasp")


def strip(kw):
    kw = dict(kw)
    if kw["iterator_cls"].__name__ == "StatelessInsertionIterator":
        kw.pop("randomized_size", None)
    return kw


def make(ctx, rng, n=None, m=None, families=gen.FAMILIES, homogeneous=False, objective=None):
    inst = gen.instance(rng, n, m, families, objective)
    if homogeneous:
        gen.homogeneous(inst)
    return inst, Built(ctx.jit, inst)


def overlap(routes):
    """How much sharing a plan contains: (routes with trips, max trips on a route, stops visited with load)."""
    return (
        sum(1 for r in routes if len(r["stops"]) > 2),
        max((sum(len(s["p"]) for s in r["stops"]) for r in routes), default=0),
    )
