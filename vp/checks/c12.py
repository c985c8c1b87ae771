"""Greedy construction takes one of the k best feasible insertions at every step and goes on until none is left."""
from .. import gen, observe, oracle, workload
from ..inst import Built, INF
from ..oracle import close
from . import c06

CASES = dict(quick=2200, thorough=40000)
REQUIRED = {"defaults": 600, "runs": 900, "steps": 2500, "choices_with_alternatives": 1200, "exhausted": 800, "left_out": 200, "resumed": 200, "resumed_without_some_routes": 80,
            "k>1": 300, "not_the_best": 80, "spread": 40, "several_loaded": 300, "last_ranked_steps": 300, "limited": 200, "limited_steps": 500, "crowds": 20, "different_vehicles": 100}
RULE = (
    "case = one construction run with a recording iterator (each of the three iterators, every strategy and criterion, k from 1 "
    "to 5, from scratch or from a partial plan, identical or different vehicles, with the number of requests looked at together limited "
    "or not, few requests or many); at every step all feasible insertions of all pending "
    "requests are enumerated and scored from scratch and the chosen one is ranked among them; non-trivial = a step with at "
    "least two different scores; distinct = by the scores and the chosen rank"
)


class Log(list):
    limit = None  # how many pending requests are looked at together, when limited


def recorder(cls, log):
    class Recorder(cls):
        def __next__(self):
            try:
                route = super().__next__()
            except StopIteration:
                log.append(None)
                raise
            log.append(route)
            return route

    return Recorder


def pool(jit, strategy_cls, state, pending, alike):
    """The feasible insertions that have to be considered: those over the current routes and over one empty vehicle.

    When the vehicles differ, which empty one is offered is open, so only the routes in use count (unless just one is
    left)."""
    out = []
    empties = [r for r in state.values() if not any(r.trips)]
    if not alike and len(empties) > 1:
        empties = []
    for r in [r for r in state.values() if any(r.trips)] + empties[:1]:
        out += list(strategy_cls(only_feasible=True).compute(r.clone(), list(pending)))
    return out


def better_or_equal(a, b, direction):
    return close(a, b) or (a < b if direction == "min" else a > b)


def run(ctx, rng, jit, inst, built, it_name, strategy_name, criterion_name, k, initial, job, seed):
    log = Log()
    kw = dict(strategy_cls=getattr(jit, strategy_name), criterion_cls=getattr(jit, criterion_name))
    if it_name == "RankingInsertionIterator":
        size = rng.choice((None, None, len(inst.trips), 24, 1, 2, 3, 24))
        if size != 24 or rng.random() < 0.5:
            kw["neighborhood_max_size"] = size
        log.limit = size
    if it_name != "StatelessInsertionIterator":
        kw.update(randomized_size=k, seed=seed)
    # what nobody asks for is as documented
    defaults = dict(
        strategy_cls=jit.SamplingInsertionStrategy, criterion_cls=jit.EarliestLastDepartureTimeRouteCriterion, randomized_size=1
    )
    for name, value in defaults.items():
        if kw.get(name) == value and rng.random() < 0.4:
            del kw[name]
            ctx.count("defaults")
    if initial is not None:
        kw["initial"] = initial
    algorithm = jit.InsertionAlgorithm(
        fleet=built.fleet, job=job, iterator_cls=recorder(getattr(jit, it_name), log), **kw
    )
    return log, algorithm.optimize()


def case(ctx, i, rng):
    jit = ctx.jit
    inst = gen.instance(rng, n=rng.choice((1, 2, 3, 4, 5, 6)), m=rng.choice((1, 2, 2, 3)))
    crowd = rng.random() < 0.015
    if crowd:
        # more requests than are looked at together by default, most of which fit nowhere
        inst = gen.instance(rng, n=rng.choice((26, 28, 30)), m=rng.choice((1, 2)))
        for t in inst.trips:
            if rng.random() < 0.85:
                t.cap = max(v.cap for v in inst.vehicles) + rng.choice((1, 3))
        ctx.count("crowds")
    alike = rng.random() < 0.75
    if alike:
        gen.homogeneous(inst)
    else:
        ctx.count("different_vehicles")
    if rng.random() < 0.3 and inst.trips and not crowd:
        for t in inst.trips[1:]:
            if rng.random() < 0.5:  # ties
                t.o, t.d, t.cap, t.timeout, t.bonus = (getattr(inst.trips[0], a) for a in ("o", "d", "cap", "timeout", "bonus"))
    built = Built(jit, inst)
    it_name = rng.choice(("RankingInsertionIterator",) * 3 + ("StatelessInsertionIterator", "BestStatelessInsertionIterator"))
    strategy_name, criterion_name = rng.choice(workload.STRATEGIES), rng.choice(workload.CRITERIA)
    if crowd and strategy_name == "SamplingInsertionStrategy":
        strategy_name = "IntensiveInsertionStrategy"  # a sample of a long route is not the whole
    direction, kind = c06.SPEC[criterion_name]
    k = rng.choice((1, 1, 1, 2, 3, 5)) if it_name != "StatelessInsertionIterator" else 1
    initial, job = None, built.job
    if rng.random() < 0.35:
        initial = workload.first_solution(jit, built, rng, workload.subset_job(jit, built, rng))
        if rng.random() < 0.3:
            initial = workload.thin(jit, rng, initial)
            ctx.count("resumed_without_some_routes")
        ctx.count("resumed")
    note = dict(iterator=it_name, strategy=strategy_name, criterion=criterion_name, k=k, resumed=initial is not None)
    ctx.note(note)
    seed = rng.randrange(10**6)
    log, result = run(ctx, rng, jit, inst, built, it_name, strategy_name, criterion_name, k, initial, job, seed)
    ctx.count("runs")
    limited = it_name == "RankingInsertionIterator" and log.limit is not None and log.limit < len(inst.trips)
    if limited:
        ctx.count("limited")
        note["neighborhood"] = log.limit
    if k > 1:
        ctx.count("k>1")

    strategy_cls = getattr(jit, strategy_name)
    state = {v.identifier: jit.Route(v) for v in built.fleet.vehicles}
    if initial is not None:
        state.update({r.vehicle.identifier: r for r in initial.routes})
    pending = set(job.trips) - {t for r in state.values() for t in r.trips}
    ranks = []

    def score(r):
        obs = observe.route(r)
        return c06.score(inst, obs, True, kind, direction)

    for route in log:
        options = pool(jit, strategy_cls, state, pending, alike)
        options = [r for r in options if oracle.verdict(oracle.violations(inst, observe.route(r))) != "bad"]
        scores = sorted((score(r) for r in options), reverse=direction == "max")
        if sum(1 for r in state.values() if any(r.trips)) > 1:
            ctx.count("several_loaded")
        if route is None:
            ctx.count("exhausted")
            if pending:
                ctx.count("left_out")
            sure = [r for r in options if oracle.verdict(oracle.violations(inst, observe.route(r))) == "ok"]
            ctx.check(
                not sure,
                f"stopped-early:{it_name}",
                lambda: f"{note}: {len(sure)} feasible insertions left, e.g. {observe.route(sure[0])}",
                inst.data(),
            )
            break
        ctx.count("steps")
        obs = observe.route(route)
        v = oracle.violations(inst, obs)
        if not ctx.check(oracle.verdict(v) != "bad", f"infeasible-step:{it_name}", lambda: f"{note}: {oracle.broken(v)}", inst.data()):
            break
        if limited:
            ctx.count("limited_steps")
        vehicle = route.vehicle.identifier
        before = {t.identifier for t in state[vehicle].trips} if vehicle in state else None
        after = [t.identifier for t in route.trips]
        names = {t.identifier for t in pending}
        new = [] if before is None else [t for t in after if t not in before]
        ok = before is not None and len(new) == 1 and new[0] in names and len(after) == len(before) + 1
        if not ctx.check(ok, f"step-inserts-one-request:{it_name}", lambda: f"{note}: {before} -> {after}, pending {names}", inst.data()):
            break
        one = next(t for t in pending if t.identifier == new[0])
        known = {observe.structure(r) for r in strategy_cls(only_feasible=True).compute(state[vehicle].clone(), one)}
        ctx.check(observe.structure(route) in known, f"step-is-an-insertion:{it_name}", lambda: f"{note}: {obs}", inst.data())
        mine = score(route)
        if len(scores) > 1:
            ctx.count("choices_with_alternatives")
        if it_name != "StatelessInsertionIterator" and not limited and len(scores) >= (1 if alike else k):
            limit = scores[min(k, len(scores)) - 1]  # the worst that is allowed
            rank = sum(1 for s in scores if not better_or_equal(mine, s, direction))
            ranks.append(rank)
            if rank > 0:
                ctx.count("not_the_best")
            if len(state) > 1 and it_name == "RankingInsertionIterator":
                ctx.count("last_ranked_steps")
            if len(set(scores)) > 1:
                ctx.sig([round(s, 6) for s in scores[:6]], rank, k)
            ctx.check(
                better_or_equal(mine, limit, direction),
                f"not-among-the-{'k-' if k > 1 else ''}best:{it_name}",
                lambda: f"{note}: chosen score {mine}, the {k} best are {scores[:k]} of {len(scores)} (rank {rank})",
                inst.data(),
            )
        state[vehicle] = route
        pending -= set(route.trips)
    else:
        ctx.violation(f"no-end:{it_name}", f"{note}: the construction ended without its iterator being exhausted")
    final = sorted((observe.structure(r) for r in result.routes), key=repr)
    want = sorted((observe.structure(r) for r in state.values()), key=repr)
    if not ctx.fired:
        ctx.check(final == want, f"result-is-the-last-state:{it_name}", lambda: f"{note}: {final} instead of {want}", inst.data())
    ctx.sample(dict(instance=inst.data(), run=note, chosen_ranks=ranks))

    # with k > 1 the choice is really spread over the candidates
    if alike and k > 1 and it_name != "StatelessInsertionIterator" and rng.random() < 0.4 and len(inst.trips) <= 4:
        first = pool(jit, strategy_cls, {r.vehicle.identifier: jit.Route(r.vehicle) for r in map(jit.Route, built.fleet.vehicles)},
                     set(built.job.trips), True)
        flat = sorted((round(score(r), 6) for r in first), reverse=direction == "max")[:k]
        if len(set(flat)) > 1:
            ctx.count("spread")
            seen = set()
            for n in range(40):
                got, _ = run(ctx, rng, jit, inst, built, it_name, strategy_name, criterion_name, k, None, built.job, seed + n)
                if got and got[0] is not None:
                    seen.add(round(score(got[0]), 6))
            ctx.check(len(seen) > 1, f"choice-never-varies:{it_name}", lambda: f"{note}: 40 runs always {seen} of {flat}", inst.data())
