"""Insertion strategies offer exactly the insertions they promise, and lose no feasible one."""
import collections

from .. import build, gen, model, observe, oracle, workload
from ..inst import Built

CASES = dict(quick=1800, thorough=36000)
REQUIRED = {"computes": 5000, "candidates": 60000, "offered": 8000, "must_offer": 5000, "sampled": 300, "all_pairs": 2000,
            "explicit": 500, "long_routes": 30, "adjusted": 300, "index_pairs": 500, "late_departures": 30, "later_pickups": 300}
RULE = (
    "case = a route (random edits, requested starts, short or long) and pending requests offered to every insertion strategy "
    "with and without the feasibility filter; each candidate's position pair, stops, times and feasibility is compared with "
    "an enumeration from scratch; non-trivial = some insertions feasible and some not; distinct = by the outcome per pair"
)


def inserted(shape, t, i, j):
    """The route's stops with t picked up after stop i and delivered before (old) stop j."""
    stops = [dict(s) for s in shape["stops"]]
    p = dict(pos=tuple(t.o.pos), p=[t.id], d=[])
    d = dict(pos=tuple(t.d.pos), p=[], d=[t.id])
    return dict(vehicle=shape["vehicle"], stops=stops[: i + 1] + [p] + stops[i + 1 : j] + [d] + stops[j:])


def key(shape):
    return (shape["vehicle"], tuple((tuple(s["pos"]), tuple(sorted(s["p"])), tuple(sorted(s["d"]))) for s in shape["stops"]))


def spread(req, i, j):
    return req[: i + 1] + [None] + req[i + 1 : j] + [None] + req[j:]


class Expected:
    def __init__(self, inst, shape, req, trips):
        self.inst, self.n = inst, len(shape["stops"])
        self.by_key = collections.defaultdict(list)
        self.shape, self.req, self.trips = shape, req, trips
        for t in trips:
            for i in range(self.n):
                for j in range(i + 1, self.n):
                    self.by_key[key(inserted(shape, t, i, j))].append((t.id, i, j))

    def verdict(self, t, i, j, late=False):
        shape = inserted(self.shape, self.inst.t()[t], i, j)
        req = spread(self.req, i, j)
        if i == 0:
            req[0] = None  # with a new first leg, the departure is decided again
        rows = oracle.simulate(self.inst, shape, req)
        if late:
            wait = rows[1]["start"] - rows[1]["arrival"]
            if not wait > 0:
                return "bad"
            req[0] = rows[0]["start"] + wait
            rows = oracle.simulate(self.inst, shape, req)
        return oracle.verdict(oracle.violations(self.inst, shape, [r["start"] for r in rows]))

    def repaired(self, t, i, j):
        """The insertion fits when those whose ride is too long are picked up later by the excess, from the last to the first."""
        trips = self.inst.t()
        shape = inserted(self.shape, trips[t], i, j)
        stops = shape["stops"]
        req = spread(self.req, i, j)
        if i == 0:
            req[0] = None
            rows = oracle.simulate(self.inst, shape, req)
            req[0] = rows[0]["start"] + max(0.0, rows[1]["start"] - rows[1]["arrival"])
        drop = {x: k for k, s in enumerate(stops) for x in s["d"]}
        pushed = False
        for k in reversed(range(1, len(stops))):
            rows = oracle.simulate(self.inst, shape, req)
            over = {x: rows[drop[x]]["start"] - rows[k]["departure"] - trips[x].timeout for x in stops[k]["p"]}
            if not over or not max(over.values()) > 0:
                continue
            if len(over) > 1 or drop[max(over, key=over.get)] <= i:
                return False  # left open: passengers boarding together, and rides that were too long before
            req[k] = rows[k]["start"] + max(over.values())
            pushed = True
        if not pushed:
            return False
        rows = oracle.simulate(self.inst, shape, req)
        return oracle.verdict(oracle.violations(self.inst, shape, [r["start"] for r in rows])) == "ok"


def judge_set(ctx, name, exp, got, pairs, inst):
    """`got` candidate routes must be the insertions of every trip at `pairs` (a multiset by structure)."""
    want = collections.Counter(
        key(inserted(exp.shape, t, i, j)) for t in exp.trips for i, j in pairs
    )
    have = collections.Counter(observe.structure(c) for c in got)
    ctx.check(
        want == have,
        f"{name}:insertions",
        lambda: f"{len(got)} candidates for {len(exp.trips)} requests at {len(pairs)} pairs; missing "
        f"{[exp.by_key.get(k) for k in (want - have)][:4]}, extra {[exp.by_key.get(k) for k in (have - want)][:4]}",
        inst.data(),
    )
    return want == have


def judge_candidates(ctx, name, inst, got):
    for c in got:
        obs = observe.route(c)
        asap = oracle.simulate(inst, obs)
        rows = oracle.simulate(inst, obs, [s["start"] for s in obs["stops"]])
        errs = model.timetable_errors(inst, c, rows)
        ctx.count("candidates")
        ctx.check(not errs, f"{name}:candidate-times", lambda: f"{errs[:3]}", inst.data())
        links = observe.link_errors(c)
        ctx.check(not links, f"{name}:candidate-links", lambda: f"{links[:3]}", inst.data())
        if any(s["start"] > a["start"] + 1e-9 for s, a in zip(obs["stops"], asap)):
            ctx.count("adjusted")


def strategies(ctx, rng, jit, built, inst, route, shape, req, pending):
    exp = Expected(inst, shape, req, pending)
    n = exp.n
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    trips = [built.trips[t.id] for t in pending]
    outcome = []
    before = observe.fingerprint(route)
    for name in workload.STRATEGIES + ("InsertionStrategy",):
        cls = getattr(jit, name)
        args, kw = (), {}
        expected = pairs
        if name == "TailInsertionStrategy":
            expected = [(n - 2, n - 1)]
        elif name == "InsertionStrategy":
            args = rng.choice(pairs)
            expected = [args]
            ctx.count("explicit")
        elif name == "SamplingInsertionStrategy":
            if rng.random() < 0.5:
                kw["count"] = rng.choice((1, 2, 5, 10, len(pairs), 500))
            if len(pairs) > kw.get("count", 128):
                expected = None

        def given():
            if len(trips) == 1 and rng.random() < 0.5:
                return trips[0]
            return rng.choice((iter, list, tuple, set, lambda x: (t for t in x)))(trips)

        def compute(only):
            ctx.count("computes")
            if rng.random() < 0.5:
                return cls(only_feasible=only).compute(route, given(), *args, **kw)
            return cls(only_feasible=not only).compute(route, given(), *args, only_feasible=only, **kw)

        everything = list(compute(False))
        judge_candidates(ctx, name, inst, everything)
        if expected is None:
            ctx.count("sampled")
            per = collections.defaultdict(set)
            strange = []
            for c in everything:
                found = exp.by_key.get(observe.structure(c))
                if not found:
                    strange.append(observe.structure(c))
                    continue
                # several pairs can give the same stops only when places coincide; take whichever is still free
                for t, i, j in found:
                    if (i, j) not in per[t]:
                        per[t].add((i, j))
                        break
                else:
                    strange.append(("repeated", found))
            ctx.check(not strange, f"{name}:insertions", lambda: f"{strange[:3]}", inst.data())
            ctx.check(
                all(len(per[t.id]) == kw.get("count", 128) for t in pending),
                f"{name}:sample-size",
                lambda: f"{[len(x) for x in per.values()]} instead of {kw.get('count', 128)} per request ({len(pairs)} pairs)",
                inst.data(),
            )
            filtered = list(compute(True))
            for c in filtered:
                ctx.count("offered")
                v = oracle.violations(inst, observe.route(c))
                ctx.check(oracle.verdict(v) != "bad", f"{name}:infeasible-offered", lambda: f"{oracle.broken(v)}", inst.data())
            continue
        ctx.count("all_pairs")
        if not judge_set(ctx, name, exp, everything, expected, inst):
            return
        filtered = list(compute(True))
        have = collections.Counter()
        for c in filtered:
            ctx.count("offered")
            have[observe.structure(c)] += 1
            v = oracle.violations(inst, observe.route(c))
            ctx.check(
                oracle.verdict(v) != "bad",
                f"{name}:infeasible-offered",
                lambda: f"{oracle.broken(v)} {observe.route(c)}",
                inst.data(),
            )
        # every candidate that is feasible as it was built (adjustments included) passes the filter
        must = collections.Counter()
        for c in everything:
            if oracle.verdict(oracle.violations(inst, observe.route(c))) == "ok":
                must[observe.structure(c)] += 1
        lost = must - have
        ctx.check(not lost, f"{name}:feasible-withheld", lambda: f"{[exp.by_key.get(k) for k in lost][:4]}", inst.data())
        # every insertion that fits with everything as early as possible, or just leaving the depot later, is offered
        must = collections.Counter()
        for t in pending:
            for i, j in expected:
                v = exp.verdict(t.id, i, j)
                late = False
                if v == "bad" and i == 0:
                    late = exp.verdict(t.id, i, j, True) == "ok"
                    ctx.count("late_departures", late)
                if v == "bad" and not late:
                    late = exp.repaired(t.id, i, j)
                    ctx.count("later_pickups", late)
                outcome.append((t.id, i, j, v, late))
                if v == "ok" or late:
                    must[key(inserted(shape, t, i, j))] += 1
        ctx.count("must_offer", sum(must.values()))
        lost = must - have
        ctx.check(
            not lost,
            f"{name}:fitting-insertion-not-offered",
            lambda: f"{[exp.by_key.get(k) for k in lost][:4]} on {shape} requested {req}",
            inst.data(),
        )
    ctx.check(observe.fingerprint(route) == before, "original-changed", "", inst.data())
    kinds = {o[3] for o in outcome}
    if {"ok", "bad"} <= kinds:
        ctx.sig(outcome)


def index_pairs(ctx, rng, jit):
    from jinete.utils import sample_index_pairs
    import random

    n = rng.choice((2, 3, 4, 5, 8, 17, 18, 40))
    total = n * (n - 1) // 2
    count = rng.choice((1, 2, 3, total - 1, total, total + 1, 128))
    if count < 1:
        return
    count_in = min(count, 400)
    seed = rng.choice((None, rng.randrange(10**6)))
    got = [tuple(p) for p in (sample_index_pairs(n, count_in) if seed is None else sample_index_pairs(n, count_in, random.Random(seed)))]
    ctx.count("index_pairs")
    ctx.check(len(set(got)) == len(got), "index-pairs:repeated", lambda: f"{n} {count_in}")
    ctx.check(len(got) == min(count_in, total), "index-pairs:amount", lambda: f"{len(got)} of {total}, {count_in} asked")
    ctx.check(all(0 <= i < j < n for i, j in got), "index-pairs:range", lambda: f"{n}: {got[:5]}")
    if total <= 28 and total > 1:
        # sampling reaches every pair
        source = random.Random(rng.randrange(10**6))
        few = max(1, total // 3)
        seen = set()
        for _ in range(60 * total):
            seen.update(tuple(p) for p in sample_index_pairs(n, few, source))
            if len(seen) == total:
                break
        ctx.check(len(seen) == total, "index-pairs:unreachable", lambda: f"n={n}: {len(seen)} of {total} ever sampled")


def interrupted(ctx, rng, jit):
    """A route from which requests that fit were left out, and rides that fit only when picked up later."""
    inst, orders = gen.hidden(rng, rng.choice((3, 4, 5, 6, 8)), 1)
    (order,) = orders.values()
    v = inst.vehicles[0]
    shape = gen.spec_route(v, order)
    rows = oracle.simulate(inst, shape)
    at = {(kind, x): k for k, s in enumerate(shape["stops"]) for kind in "pd" for x in s[kind]}
    for t in inst.trips:
        if ("p", t.id) in at and rng.random() < 0.7:
            a, b = at["p", t.id], at["d", t.id]
            wait = sum(r["start"] - r["arrival"] for r in rows[a + 1 : b + 1])
            if wait > 0:
                t.timeout = round(rows[b]["start"] - rows[a]["departure"] - wait * rng.choice((0.2, 0.6, 0.99, 1.0)) + 1e-5, 6)
    built = Built(jit, inst)
    live = model.Live(jit, built, rng, v)
    served = [t for t in inst.trips if ("p", t.id) in at]
    # left out are preferably requests that others wait for while aboard
    span = [k for t in served for k in range(at["p", t.id] + 1, at["d", t.id])]
    waited = [t for t in served for k in (at["p", t.id], at["d", t.id]) if k in span and rows[k]["start"] > rows[k]["arrival"]]
    if waited and rng.random() < 0.7:
        keep = set(t.id for t in served) - {rng.choice(waited).id}
    else:
        keep = set(t.id for t in rng.sample(served, max(0, len(served) - rng.choice((1, 1, 2)))))
    index = {(kind, t.id): n for n, (kind, t) in enumerate(order)}
    present = []
    for t in rng.sample(served, len(served)):
        if t.id in keep:
            pk, dl = index["p", t.id], index["d", t.id]
            live.append(t, sum(1 for x in present if x < pk), sum(1 for x in present if x < dl))
            present += [pk, dl]
    return inst, built, live


def case(ctx, i, rng):
    jit = ctx.jit
    index_pairs(ctx, rng, jit)
    if rng.random() < 0.25:
        inst, built, live = interrupted(ctx, rng, jit)
        target = 0
    else:
        inst, built, live, target = edited(ctx, rng, jit)
    if rng.random() < 0.3:
        live.delay()
    if rng.random() < 0.3:
        build.touch(live.route)
    outside = live.outside()
    if not outside:
        return
    pending = rng.sample(outside, rng.randint(1, min(3, len(outside))))
    if target >= 8:
        pending = pending[:1]
    shape = live.shape()
    ctx.sample(dict(instance=inst.data(), stops=shape["stops"], pending=[t.id for t in pending]))
    strategies(ctx, rng, jit, built, inst, live.route, shape, [s["req"] for s in live.model], pending)


def edited(ctx, rng, jit):
    how = rng.random()
    if how < 0.35:
        inst = gen.instance(rng, n=rng.choice((2, 3, 4, 6)), m=1)
    elif how < 0.7:
        inst = gen.relaxed(rng, rng.choice((2, 3, 4, 6)), 1)
        vehicle = inst.vehicles[0]
        gen.tighten(rng, inst, vehicle, gen.plan_order(rng, inst.trips, 0.7))
    elif how < 0.95:
        inst = gen.tight(rng, rng.choice((2, 3, 4, 6)), 1)
    else:
        inst = gen.relaxed(rng, 10, 1)
    if rng.random() < 0.25:
        v = inst.vehicles[0]
        v.timeout = rng.choice((20.0, 60.0, 150.0, 400.0))
    built = Built(jit, inst)
    live = model.Live(jit, built, rng, inst.vehicles[0])
    target = rng.randint(0, len(inst.trips) - 1) if len(inst.trips) < 10 else 9
    if target >= 8:
        ctx.count("long_routes")
    if rng.random() < 0.6:
        for _ in range(target):
            live.append()
    else:  # along a natural order, so that the route tends to be feasible
        order = sorted(inst.trips, key=lambda t: oracle.trip_windows(inst, t)[0])[:target]
        for t in order:
            n = len(live.model)
            live.append(t, n - 2, n - 2)
    return inst, built, live, target
