"""The times at which a request may be served are exactly those that some complete service of it uses."""
import copy

from .. import gen, observe, oracle
from ..inst import INF, Built, Inst, S, T, V, dist
from ..oracle import close

CASES = dict(quick=8000, thorough=160000)
REQUIRED = {"requests": 2500, "pickup_times": 12000, "delivery_times": 12000, "inside": 6000, "outside": 6000, "unlimited": 700,
            "ride_limit_binds": 300, "unequal_services": 700, "impossible": 50, "routes": 2000, "routes_ok": 500, "routes_bad": 500}
RULE = (
    "case = requests with all kinds of windows, service times and ride limits; the windows the library derives are compared with "
    "the existence of a matching pickup or delivery time, decided per sampled time (window ends and their neighbourhoods "
    "included) from the definition of the problem, and with routes that serve the request at that time; distinct = by the request"
)


def value(rng, *options):
    return float(rng.choice(options)) if rng.random() < 0.5 else round(rng.uniform(0, 200), 2)


def request(rng):
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    a = (float(rng.randint(0, 20)), float(rng.randint(0, 20)))
    b = a if rng.random() < 0.08 else (float(rng.randint(0, 20)), float(rng.randint(0, 20)))
    travel = dist(metric, a, b)

    def window():
        kind = rng.random()
        if kind < 0.25:
            return 0.0, INF
        if kind < 0.4:
            return value(rng, 0, 10, 50), INF
        if kind < 0.5:
            return 0.0, value(rng, 50, 100, 200)
        e = value(rng, 0, 10, 30, 60)
        return e, e + rng.choice((0.0, 1.0, 15.0, 15.5, 60.0, 200.0))

    o = S(*a, *window(), float(rng.choice((0, 0, 1, 3, 10.5))))
    d = S(*b, *window(), float(rng.choice((0, 0, 1, 3, 10.5))))
    timeout = rng.choice((INF, INF, travel, travel + 1.0, travel + 10.0, travel + 40.5, 30.0, 90.0))
    if rng.random() < 0.5 and o.l < INF and d.l < INF:
        # make the two windows meet
        shift = o.e + o.d + travel - d.e + rng.choice((0.0, 5.0, -5.0, 30.0))
        if d.e + shift >= 0:
            d.e, d.l = d.e + shift, d.l + shift
    return metric, T("r", o, d, 1.0, timeout)


def delivery_range(t, travel, p):
    """The delivery times that go with a pickup at p, if p itself is allowed: [lo, hi]."""
    return max(t.d.e, p + t.o.d + travel), min(t.d.l, p + t.o.d + t.timeout)


def pickup_ok(t, travel, p, eps):
    """Whether some complete service of the request starts its pickup at p, with every constraint loosened by eps."""
    lo, hi = delivery_range(t, travel, p)
    return t.o.e - eps <= p <= t.o.l + eps and lo <= hi + eps


def delivery_ok(t, travel, s, eps):
    lo, hi = max(t.o.e, s - t.o.d - t.timeout), min(t.o.l, s - t.o.d - travel)
    return t.d.e - eps <= s <= t.d.l + eps and lo <= hi + eps


def times(rng, *ends):
    out = []
    for e in ends:
        if e < INF and e == e:
            out += [e, e - 0.01, e + 0.01, e - rng.uniform(0, 20), e + rng.uniform(0, 20)]
    out.append(rng.uniform(0, 300))
    return [x for x in out if x >= 0]


def case(ctx, i, rng):
    jit = ctx.jit
    metric, t = request(rng)
    far = S(t.o.x, t.o.y, 0.0, INF)
    inst = Inst(metric, [V("v", far, None, 5.0, INF)], [t])
    built = Built(jit, inst)
    trip = built.trips["r"]
    if rng.random() < 0.2:
        trip = copy.deepcopy(trip)
    travel = dist(metric, t.o.pos, t.d.pos)
    asked = ["origin_earliest", "origin_latest", "destination_earliest", "destination_latest"]
    rng.shuffle(asked)
    got = {}
    for name in asked:
        got[name] = getattr(trip, name)
    ctx.count("requests")
    ctx.check(all(getattr(trip, k) == v for k, v in got.items()), "changes-when-asked-again", lambda: f"{got}", inst.data())
    if t.timeout == INF or t.o.l == INF or t.d.l == INF:
        ctx.count("unlimited")
    if t.o.d != t.d.d:
        ctx.count("unequal_services")
    w = oracle.trip_windows(inst, t)
    for name, want in zip(("origin_earliest", "origin_latest", "destination_earliest", "destination_latest"), w):
        ctx.check(close(got[name], want, 1e-9), f"window:{name}", lambda: f"{got[name]} instead of {want}", inst.data())
    if w[0] > t.o.e or w[3] < t.d.l and t.timeout < INF:
        ctx.count("ride_limit_binds")
    eps = 1e-6
    possible = False
    if travel <= t.timeout and t.o.e <= t.o.l and t.d.e <= t.d.l:
        for p in times(rng, w[0], w[1], t.o.e, t.o.l):
            ctx.count("pickup_times")
            inside = got["origin_earliest"] - eps <= p <= got["origin_latest"] + eps
            if pickup_ok(t, travel, p, -eps):
                ctx.count("inside")
                possible = True
                ctx.check(inside, "pickup-time-excluded", lambda: f"{p} not in {got}", inst.data())
            elif not pickup_ok(t, travel, p, 3 * eps):
                ctx.count("outside")
                ctx.check(not (got["origin_earliest"] + eps <= p <= got["origin_latest"] - eps), "pickup-time-included", lambda: f"{p} in {got}", inst.data())
        for s in times(rng, w[2], w[3], t.d.e, t.d.l):
            ctx.count("delivery_times")
            if delivery_ok(t, travel, s, -eps):
                ctx.count("inside")
                possible = True
                ctx.check(
                    got["destination_earliest"] - eps <= s <= got["destination_latest"] + eps, "delivery-time-excluded", lambda: f"{s} not in {got}", inst.data()
                )
            elif not delivery_ok(t, travel, s, 3 * eps):
                ctx.count("outside")
                ctx.check(
                    not (got["destination_earliest"] + eps <= s <= got["destination_latest"] - eps),
                    "delivery-time-included",
                    lambda: f"{s} in {got}",
                    inst.data(),
                )
    if not possible:
        ctx.count("impossible")
    # serving it at that time
    for p in rng.sample(times(rng, w[0], w[1], t.o.e, t.o.l), 3 if w[1] < INF else 2):
        v = built.vehicles["v"]
        a = jit.Stop(v, v.origin_position, None)
        b = jit.Stop(v, trip.origin_position, a, starting_time=p)
        c = jit.Stop(v, trip.destination_position, b)
        e = jit.Stop(v, v.destination_position, c)
        jit.PlannedTrip(v, trip, b, c)
        route = jit.Route(v, [a, b, c, e])
        obs = observe.route(route)
        verdict = oracle.verdict(oracle.violations(inst, obs))
        ctx.count("routes")
        if verdict != "grey":
            ctx.count(f"routes_{verdict}")
            ctx.check(
                route.feasible == (verdict == "ok"),
                "route",
                lambda: f"pickup requested at {p}: {route.feasible}, {oracle.broken(oracle.violations(inst, obs))} {obs}",
                inst.data(),
            )
        # and never before the request allows it
        starts = [s["start"] for s in obs["stops"]]
        ctx.check(
            starts[1] >= max(p, t.o.e) - 1e-9 and starts[2] >= t.d.e - 1e-9,
            "served-too-early",
            lambda: f"{starts} for a pickup requested at {p}",
            inst.data(),
        )
    ctx.sig(metric, repr(t))
    ctx.sample(dict(request=repr(t), metric=metric, windows=got))
