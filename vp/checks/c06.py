"""Choosing: scores of the criteria, and best / sorted / n-best under every criterion, objective and direction."""
import statistics

from .. import build, gen, observe, oracle, workload
from ..inst import Built, INF, dist
from ..oracle import close

CASES = dict(quick=2500, thorough=50000)
REQUIRED = {"scores": 8000, "choices": 8000, "infeasible_scored": 300, "ties": 300, "with_none": 300, "objective_choices": 2000}
RULE = (
    "case = a pool of random routes (feasible and infeasible, empty, equal-scored) offered to each criterion, objective and "
    "direction; non-trivial = at least two different scores in the pool; distinct = by the sorted scores"
)
SPEC = {
    "EarliestLastDepartureTimeRouteCriterion": ("min", "last"),
    "ShortestAveragePlannerTripDurationCriterion": ("min", "mean"),
    "ShortestTimeRouteCriterion": ("min", "duration"),
    "LongestTimeRouteCriterion": ("max", "duration"),
    "LongestUtilTimeRouteCriterion": ("max", "util"),
    "HashCodeRouteCriterion": ("max", "hashcode"),
}


def score(inst, obs, feasible, kind, direction):
    if not feasible:
        return INF if direction == "min" else -INF
    rows = oracle.simulate(inst, obs, [s["start"] for s in obs["stops"]])
    times = oracle.trip_times(inst, obs)
    trips = inst.t()
    if kind == "last":
        return rows[-1]["departure"]
    if kind == "duration":
        return rows[-1]["departure"] - rows[0]["departure"]
    if kind == "mean":
        return statistics.mean([b - a for a, b in times.values()]) if times else 0.0
    util = sum(dist(inst.metric, trips[i].o.pos, trips[i].d.pos) for i in times)
    if kind == "util":
        return util
    return util + sum(trips[i].bonus for i, (a, b) in times.items() if oracle.trip_windows(inst, trips[i])[0] == a)


def judge_choice(ctx, name, direction, pool, scores, best, ordered, top, n):
    """`pool` items with `scores`; the choice functions' answers."""
    better = min if direction == "min" else max
    ctx.count("choices")
    index = {id(x): s for x, s in zip(pool, scores)}
    if len(set(scores)) > 1:
        ctx.sig(name, sorted(round(s, 6) if isinstance(s, float) else s for s in scores))
    if len(set(scores)) < len(scores):
        ctx.count("ties")

    def same(a, b):
        if isinstance(a, tuple):
            return all(close(x, y) for x, y in zip(a, b))
        return close(a, b)

    if best is not False:
        if pool:
            ok = best is not None and id(best) in index and same(index[id(best)], better(scores))
            ctx.check(ok, f"{name}:best", lambda: f"chose {index.get(id(best))} of {scores}")
        else:
            ctx.check(best is None, f"{name}:best-of-nothing", lambda: f"{best}")
    if ordered is not False:
        want = sorted(scores, reverse=direction == "max")
        ok = len(ordered) == len(pool) and sorted(map(id, ordered)) == sorted(map(id, pool))
        ctx.check(ok, f"{name}:sorted-loses-items", lambda: f"{len(ordered)} of {len(pool)}")
        if ok:
            got = [index[id(x)] for x in ordered]
            ctx.check(all(same(a, b) for a, b in zip(got, want)), f"{name}:sorted", lambda: f"{got} instead of {want}")
    if top is not False:
        want = sorted(scores, reverse=direction == "max")[:n]
        ok = len(top) == len(want) and len(set(map(id, top))) == len(top) and all(id(x) in index for x in top)
        ctx.check(ok, f"{name}:nbest-items", lambda: f"{len(top)} of {len(want)}")
        if ok:
            got = [index[id(x)] for x in top]
            ctx.check(all(same(a, b) for a, b in zip(got, want)), f"{name}:nbest", lambda: f"{got} instead of {want}")


def case(ctx, i, rng):
    jit = ctx.jit
    inst = gen.relaxed(rng, rng.choice((1, 3, 5)), 1) if rng.random() < 0.4 else gen.instance(rng, n=rng.choice((2, 4, 6)), m=1)
    vehicle = inst.vehicles[0]
    if rng.random() < 0.5:
        for t in inst.trips:
            t.o.d = 0.0
            t.bonus = 5.0
    if rng.random() < 0.3 and inst.trips:
        gen.tighten(rng, inst, vehicle, gen.plan_order(rng, inst.trips[:2]))
    built = Built(jit, inst)
    size = rng.choice((0, 1, 2, 3, 5, 8))
    pool = []
    for _ in range(size):
        how = rng.random()
        if how < 0.2 and pool:
            pool.append(rng.choice(pool).clone())
        elif how < 0.6:
            sub = rng.sample(inst.trips, min(len(inst.trips), rng.choice((0, 1, 1, 2))))
            pool.append(build.random_route(jit, built, rng, vehicle, sub)[0])
        else:
            pool.append(build.random_route(jit, built, rng, vehicle)[0])
    seen = [observe.route(r) for r in pool]
    verdicts = [oracle.verdict(oracle.violations(inst, o)) for o in seen]
    keep = [k for k, v in enumerate(verdicts) if v != "grey"]
    pool, seen, verdicts = [pool[k] for k in keep], [seen[k] for k in keep], [verdicts[k] for k in keep]
    ctx.sample(dict(instance=inst.data(), pool=seen))
    n = rng.choice((0, 1, 2, 3, 20))
    for name, (direction, kind) in SPEC.items():
        criterion = getattr(jit, name)()
        scores = [score(inst, o, v == "ok", kind, direction) for o, v in zip(seen, verdicts)]
        for r, s, v in zip(pool, scores, verdicts):
            ctx.count("scores")
            if v == "bad":
                ctx.count("infeasible_scored")
            got = criterion.scoring(r)
            ctx.check(close(got, s), f"{name}:score", lambda: f"{got} instead of {s}: {observe.route(r)}", inst.data())
        offered = list(pool)
        if rng.random() < 0.3:
            ctx.count("with_none")
            offered.insert(rng.randint(0, len(offered)), None)
        items = list(pool)
        inplace = rng.random() < 0.5
        ordered = criterion.sorted(items, inplace=inplace)
        if inplace:
            ctx.check([id(x) for x in items] == [id(x) for x in ordered], f"{name}:inplace", "the list itself was not sorted")
        else:
            ctx.check([id(x) for x in items] == [id(x) for x in pool], f"{name}:not-inplace", "the list itself was changed")
        top = criterion.nbest(n, iter(pool) if rng.random() < 0.5 else list(pool))
        judge_choice(ctx, name, direction, pool, scores, criterion.best(*offered), ordered, top, n)
    # objectives choose among requests, routes, plannings, results and plain values
    for name in ("DialARide", "TaxiSharing", "HashCode"):
        objective = getattr(jit, f"{name}Objective")()
        values = [oracle.objective_value(inst, name, [o]) for o in seen]
        if not objective.direction == jit.OptimizationDirection.MAXIMIZATION:
            ctx.violation(f"{name}:direction", str(objective.direction))
        for level in ("route", "planning", "result", "value"):
            if level == "route":
                items = list(pool)
            elif level == "planning":
                items = [jit.Planning({r}) for r in pool]
            elif level == "result":
                items = [built.result([r]) for r in pool]
            else:
                items = [tuple(list(v)) for v in values]
                items = [tuple(float(x) for x in v) for v in items]
                if len({id(x) for x in items}) < len(items):
                    continue
            ctx.count("objective_choices")
            offered = list(items)
            if rng.random() < 0.3:
                offered.insert(0, None)
            judge_choice(ctx, f"{name}:{level}", "max", items, values, objective.best(*offered), False, False, n)
    # plain numbers under both directions
    for direction, which in ((jit.OptimizationDirection.MAXIMIZATION, "max"), (jit.OptimizationDirection.MINIMIZATION, "min")):
        items = [[rng.choice((0, 1, 2, -5, 7.5, INF, -INF))] for _ in range(rng.randint(0, 6))]
        scores = [x[0] for x in items]
        judge_choice(
            ctx,
            f"direction:{which}",
            which,
            items,
            scores,
            direction(items, key=lambda x: x[0], default=None),
            direction.sorted(list(items), key=lambda x: x[0]),
            direction.nbest(n, iter(items), key=lambda x: x[0]),
            n,
        )
