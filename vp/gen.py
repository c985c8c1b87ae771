"""Random problem instances: realistic benchmark shapes, heterogeneous ones, and hostile ones.

Every generator takes a `random.Random` and returns pure data (`Inst`)."""
import math

from .inst import INF, Inst, S, T, V, dist

DECIMALS = (0.1, 0.2, 0.3, 0.7, 1.1)  # loads whose sums are not exact
FAMILIES = ("cordeau", "hashcode", "taxi", "hetero", "degenerate", "tight")


def _r(rng, a, b, nd=3):
    return round(rng.uniform(a, b), nd)


def cordeau(rng, n, m):
    """Cordeau & Laporte's random DARP instances: depot in the middle, half of the requests constrained at the pickup and
    half at the delivery, a ride limit, a tour limit."""
    side = rng.choice((10.0, 10.0, 20.0, 50.0))
    horizon = rng.choice((480.0, 480.0, 1440.0))
    width = rng.choice((15.0, 30.0, 60.0))
    ride = rng.choice((30.0, 60.0, 90.0, 90.0)) * (side / 10.0)
    depot = S(_r(rng, -1, 1), _r(rng, -1, 1), 0.0, rng.choice((horizon, INF)))
    pd = rng.choice((3.0, 10.0))
    dd = pd if rng.random() < 0.6 else rng.choice((1.0, 5.0))
    cap = float(rng.choice((1, 2, 3, 6)))
    tour = rng.choice((horizon, horizon, horizon / 2, INF))
    trips = []
    for i in range(n):
        o = S(_r(rng, -side, side), _r(rng, -side, side), 0.0, horizon, pd)
        d = S(_r(rng, -side, side), _r(rng, -side, side), 0.0, horizon, dd)
        a = _r(rng, 0, horizon * 0.6)
        if i < n // 2:
            d.e, d.l = a + dist("EUCLIDEAN", o.pos, d.pos) + pd, a + dist("EUCLIDEAN", o.pos, d.pos) + pd + width
        else:
            o.e, o.l = a, a + width
        trips.append(T(str(i + 1), o, d, float(rng.choice((1, 1, 1, min(2, cap)))), ride))
    vs = [V(str(k), depot, None, cap, tour) for k in range(m)]
    return Inst("EUCLIDEAN", vs, trips, "DialARide", ["cordeau"])


def hashcode(rng, n, m):
    side = rng.choice((4, 8, 20, 100))
    T_ = rng.choice((20, 60, 200, 1000)) + side
    bonus = float(rng.choice((0, 2, 25)))
    depot = S(0, 0, 0.0, float(T_))
    trips = []
    for i in range(n):
        o = (rng.randint(0, side), rng.randint(0, side))
        d = (rng.randint(0, side), rng.randint(0, side))
        while d == o:
            d = (rng.randint(0, side), rng.randint(0, side))
        travel = dist("MANHATTAN", o, d)
        e = float(rng.randint(0, max(1, int(T_ * 0.7))))
        f = min(float(T_), e + travel + rng.choice((0, 0, 3, 10, 40)))
        trips.append(T(str(i), S(o[0], o[1], e), S(d[0], d[1], 0.0, f), 1, INF, bonus))
    # the vehicles need not come back: the destination is wherever; the library models it as the origin
    depot = S(0, 0, 0.0, rng.choice((float(T_), INF)))
    vs = [V(str(k), depot, None, 1.0) for k in range(m)]
    return Inst("MANHATTAN", vs, trips, "HashCode", ["hashcode"])


def taxi(rng, n, m):
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    horizon = 300.0
    trips = []
    for i in range(n):
        o = S(_r(rng, -8, 8, 2), _r(rng, -8, 8, 2))
        d = S(_r(rng, -8, 8, 2), _r(rng, -8, 8, 2))
        travel = dist(metric, o.pos, d.pos)
        o.e = _r(rng, 0, horizon * 0.6, 2)
        o.l = o.e + rng.choice((5.0, 20.0, 60.0))
        o.d = rng.choice((0.0, 0.5, 2.0))
        d.d = rng.choice((0.0, 0.5, 4.0))
        cap = rng.choice((0, 0.5, 1, 1, 2, 3))
        timeout = travel * rng.choice((1.0, 1.25, 1.5, 3.0)) + rng.choice((0.0, 5.0))
        trips.append(T(f"t{i}", o, d, cap, timeout))
    depot = S(0.0, 0.0, 0.0, horizon)
    cap = rng.choice((1.0, 3.0, 4.0))
    vs = [V(f"v{k}", depot, None, cap, rng.choice((INF, horizon, 120.0))) for k in range(m)]
    return Inst(metric, vs, trips, rng.choice(("TaxiSharing", "DialARide")), ["taxi"])


def hetero(rng, n, m):
    """Everything different: depots, separate destinations, capacities, shifts, limits, unequal service times."""
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    scale = rng.choice((1.0, 10.0, 100.0))
    horizon = rng.choice((100.0, 400.0, 1440.0))
    vs = []
    for k in range(m):
        o = S(_r(rng, -scale, scale), _r(rng, -scale, scale), rng.choice((0.0, 0.0, _r(rng, 0, horizon / 3))), INF)
        o.l = rng.choice((INF, horizon))
        d = None
        if rng.random() < 0.5:
            d = S(_r(rng, -scale, scale), _r(rng, -scale, scale), 0.0, rng.choice((INF, horizon, horizon * 1.5)))
        if rng.random() < 0.2:
            o.d = 9.0  # the service time of a depot delays nobody
        v = V(f"v{k}", o, d, float(rng.choice((1, 2, 3, 2.5))), rng.choice((INF, horizon, horizon / 2)))
        direct = dist(metric, v.o.pos, v.end.pos)  # every vehicle can at least drive its empty route
        if direct > v.timeout:
            v.timeout = direct * 1.5
        if v.o.e + direct > v.end.l:
            v.end.l = v.o.e + direct * 1.5 + 1.0
        vs.append(v)
    trips = []
    caps = DECIMALS if rng.random() < 0.2 else (0, 1, 1, 1, 2, 0.5)
    for i in range(n):
        o = S(_r(rng, -scale, scale), _r(rng, -scale, scale))
        d = S(_r(rng, -scale, scale), _r(rng, -scale, scale))
        travel = dist(metric, o.pos, d.pos)
        o.d, d.d = rng.choice((0.0, 1.0, 7.5)), rng.choice((0.0, 2.0, 11.25))
        timeout = rng.choice((INF, travel * 1.5 + 5.0, travel + 30.0, travel))
        kind = rng.random()
        a = _r(rng, 0, horizon * 0.6)
        if kind < 0.35:
            o.e, o.l = a, a + rng.choice((5.0, 20.0, 100.0))
        elif kind < 0.7:
            d.e = a + o.d + travel
            d.l = d.e + rng.choice((5.0, 20.0, 100.0))
        elif kind < 0.9:
            o.e, o.l = a, a + rng.choice((10.0, 50.0))
            d.e = a + o.d + travel
            d.l = d.e + rng.choice((10.0, 50.0))
        trips.append(T(f"t{i}", o, d, rng.choice(caps), timeout, float(rng.choice((0, 10)))))
    return Inst(metric, vs, trips, rng.choice(("DialARide", "TaxiSharing", "HashCode")), ["hetero"])


def degenerate(rng, n, m):
    """Few distinct places, zero durations, zero-width windows, unlimited everything."""
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    places = [(float(rng.randint(-3, 3)), float(rng.randint(-3, 3))) for _ in range(rng.choice((1, 2, 3, 5)))]
    depot = S(*rng.choice(places), 0.0, rng.choice((INF, 200.0)))
    trips = []
    for i in range(n):
        o, d = S(*rng.choice(places)), S(*rng.choice(places))
        o.d, d.d = rng.choice((0.0, 0.0, 1.0)), rng.choice((0.0, 0.0, 2.0))
        if rng.random() < 0.4:
            o.e = float(rng.randint(0, 20))
            o.l = o.e + rng.choice((0.0, 5.0, INF))
        travel = dist(metric, o.pos, d.pos)
        trips.append(
            T(str(i), o, d, rng.choice((0, 1, 1, 2)), rng.choice((INF, travel, travel + 2.0)), float(rng.choice((0, 3))))
        )
    vs = [V(str(k), depot, None, float(rng.choice((1, 2, 4))), rng.choice((INF, 100.0))) for k in range(m)]
    return Inst(metric, vs, trips, rng.choice(("DialARide", "TaxiSharing", "HashCode")), ["degenerate"])


def tight(rng, n, m):
    """Windows, ride limits and shifts with little slack, laid along hidden plans so that sharing is possible."""
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    vs, trips = [], []
    base = S(_r(rng, -3, 3), _r(rng, -3, 3), rng.choice((0.0, 10.0)), INF)
    homogeneous = rng.random() < 0.5
    cap = float(rng.choice((1, 2, 3)))
    for k in range(m):
        if not homogeneous:
            cap = float(rng.choice((1, 2, 3)))
        vs.append(V(f"v{k}", base, None, cap, INF))
    plans = [[] for _ in range(m)]
    for i in range(n):
        o = S(_r(rng, -10, 10), _r(rng, -10, 10), 0.0, INF, rng.choice((0.0, 1.0, 3.0)))
        d = S(_r(rng, -10, 10), _r(rng, -10, 10), 0.0, INF, rng.choice((0.0, 2.0, 3.0)))
        t = T(f"t{i}", o, d, 1)
        trips.append(t)
        plan = plans[rng.randrange(m)]
        a = rng.randint(max(0, len(plan) - 4), len(plan))
        plan.insert(a, ("p", t))
        plan.insert(rng.randint(a + 1, min(len(plan), a + 4)), ("d", t))
    for v, plan in zip(vs, plans):
        pos, now, load = v.o.pos, v.o.e, 0.0
        start = {}
        for kind, t in plan:
            s = t.o if kind == "p" else t.d
            now += dist(metric, pos, s.pos) + rng.choice((0.0, 0.0, 5.0))
            slack = rng.choice((0.5, 3.0, 15.0))
            s.e = max(0.0, round(now - rng.choice((0.0, slack)), 3))
            s.l = round(now + slack, 3)
            if kind == "p":
                load += 1
            else:
                load -= 1
                t.timeout = round(now - start[t.id], 3) + rng.choice((0.1, 2.0, 10.0))
            v.cap = max(v.cap, load)
            now += s.d
            if kind == "p":
                start[t.id] = now
            pos = s.pos
        if plan and rng.random() < 0.5:
            v.timeout = round(now + dist(metric, pos, v.o.pos) - v.o.e, 3) + rng.choice((1.0, 10.0))
    rng.shuffle(trips)
    return Inst(metric, vs, trips, rng.choice(("DialARide", "DialARide", "TaxiSharing", "HashCode")), ["tight"])


_GEN = dict(cordeau=cordeau, hashcode=hashcode, taxi=taxi, hetero=hetero, degenerate=degenerate, tight=tight)


def instance(rng, n=None, m=None, families=FAMILIES, objective=None):
    family = rng.choice(families)
    if n is None:
        n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8))
    if m is None:
        m = rng.choice((1, 1, 2, 2, 3, 4))
    inst = _GEN[family](rng, n, m)
    if objective is not None:
        inst.objective = objective
    return inst


def homogeneous(inst):
    """The same instance with every vehicle identical to the first one."""
    v0 = inst.vehicles[0]
    inst.vehicles = [V(v.id, v0.o, v0.d, v0.cap, v0.timeout) for v in inst.vehicles]
    return inst


def plan_order(rng, trips, share=0.6):
    """A random precedence-respecting order of pickups and deliveries; `share` near 1 overlaps rides more."""
    order = []
    for t in trips:
        if rng.random() < share and order:
            a = rng.randint(0, len(order))
            b = rng.randint(a, min(len(order), a + 5))
        else:
            a = b = len(order)
        order.insert(a, ("p", t))
        order.insert(b + 1, ("d", t))
    return order


def spec_route(vehicle, order, merge=False, rng=None):
    """The observable shape of a route serving `order` (end depots included), optionally merging stops at one place."""
    stops = [dict(pos=vehicle.o.pos, p=[], d=[])]
    for kind, t in order:
        pos = t.o.pos if kind == "p" else t.d.pos
        last = stops[-1]
        if (
            merge
            and len(stops) > 1
            and last["pos"] == pos
            and not (kind == "d" and t.id in last["p"])
            and rng.random() < 0.7
        ):
            last[kind].append(t.id)
        else:
            stops.append(dict(pos=pos, p=[t.id] if kind == "p" else [], d=[t.id] if kind == "d" else []))
    stops.append(dict(pos=vehicle.end.pos, p=[], d=[]))
    return dict(vehicle=vehicle.id, stops=stops)


def tighten(rng, inst, vehicle, order, requested=None):
    """Sets the windows, limits, loads and shift of a plan's own constraints so that each binds with a chosen margin.

    Returns the worst planned margin (positive: violated by that much)."""
    from .oracle import simulate

    eps = rng.choice((-5.0, -0.5, -0.01, -0.0005, 0.0, 0.0, 0.0004, 0.0009, 0.0021, 0.005, 0.02, 0.2, 3.0))
    which = rng.choice(
        ("pickup_late", "delivery_late", "ride", "capacity", "shift_end", "timeout", "none", "pickup_early_only")
    )
    shape = spec_route(vehicle, order)
    rows = simulate(inst, shape, requested)
    exactly = any(t.cap in DECIMALS for _, t in order) and rng.random() < 0.4
    if exactly:
        which = "capacity"
    # only the constraint under test binds
    if not order:
        which = rng.choice(("shift_end", "timeout", "none"))
    k = rng.randrange(1, len(rows) - 1) if order else 0
    kind, t = order[k - 1] if order else (None, None)
    if which == "pickup_late":
        k = next(j for j in range(1, len(rows) - 1) if order[j - 1][0] == "p" and order[j - 1][1] is t)
        t.o.l = max(0.0, rows[k]["start"] - eps)
        t.o.e = min(t.o.e, t.o.l)
    elif which == "delivery_late":
        k = next(j for j in range(1, len(rows) - 1) if order[j - 1][0] == "d" and order[j - 1][1] is t)
        t.d.l = max(0.0, rows[k]["start"] - eps)
        t.d.e = min(t.d.e, t.d.l)
    elif which == "ride":
        a = next(j for j in range(1, len(rows) - 1) if order[j - 1][0] == "p" and order[j - 1][1] is t)
        b = next(j for j in range(1, len(rows) - 1) if order[j - 1][0] == "d" and order[j - 1][1] is t)
        t.timeout = max(0.0, rows[b]["start"] - rows[a]["departure"] - eps)
    elif which == "capacity":
        vehicle.cap = max(
            0.0, max(r["load"] for r in rows) - rng.choice((-1.0, -0.5, -0.01, 0.0, 0.0, 0.0005, 0.01, 0.5, 1.0))
        )
        if exactly:
            vehicle.cap = max(r["load"] for r in rows)
        if rng.random() < 0.7:
            vehicle.cap = round(vehicle.cap, 6)  # as one would write it: 0.3, where 0.1 + 0.2 is a trifle more
    elif which == "shift_end":
        end = vehicle.end
        new = S(end.x, end.y, end.e, rows[-1]["departure"] - eps, end.d)
        if vehicle.d is None:
            new.e = vehicle.o.e
            vehicle.o = new
        else:
            vehicle.d = new
    elif which == "timeout":
        vehicle.timeout = max(0.0, rows[-1]["departure"] - rows[0]["departure"] - eps)
    return which, eps


def relaxed(rng, n, m):
    """Loose instance: everything fits; constraints are tightened one at a time on top of it."""
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    scale = rng.choice((5.0, 30.0, 300.0))
    integer = metric == "MANHATTAN" and rng.random() < 0.5

    def c():
        return float(rng.randint(-int(scale), int(scale))) if integer else _r(rng, -scale, scale)

    places = [(c(), c()) for _ in range(max(2, rng.choice((n, 2 * n, 4 * n))))]
    vs = []
    for k in range(m):
        o = S(*rng.choice(places), rng.choice((0.0, 0.0, 20.0)), INF)
        d = S(*rng.choice(places)) if rng.random() < 0.4 else None
        if rng.random() < 0.2:
            o.d = 6.5
        vs.append(V(f"v{k}", o, d, 1000.0, INF))
    trips = []
    caps = DECIMALS if rng.random() < 0.2 else (0, 0.25, 1, 1, 2, 3)
    for i in range(n):
        o, d = S(*rng.choice(places)), S(*rng.choice(places))
        o.d, d.d = rng.choice((0.0, 1.0, 3.5)), rng.choice((0.0, 2.0, 6.25))
        if rng.random() < 0.4:
            o.e = _r(rng, 0, 40 * n)
        if rng.random() < 0.4:
            d.e = _r(rng, 0, 40 * n)
        trips.append(T(f"t{i}", o, d, rng.choice(caps), INF, float(rng.choice((0, 7)))))
    return Inst(metric, vs, trips, rng.choice(("DialARide", "TaxiSharing", "HashCode")), ["relaxed"])


def loose(rng, n, m, objective=None):
    """Every request fits anywhere at any time, and all are different."""
    inst = relaxed(rng, n, m)
    for t in inst.trips:
        t.o.e = t.d.e = 0.0
        t.o.x, t.o.y = (round(rng.uniform(-5, 5), 3) for _ in range(2))
        t.d.x, t.d.y = (round(rng.uniform(-5, 5), 3) for _ in range(2))
    if objective:
        inst.objective = objective
    return inst


def long_line(rng, n, m, metric="MANHATTAN"):
    """Many short requests one after another: long routes and large candidate pools."""
    trips = []
    x = 0.0
    for i in range(n):
        a, b = x, x + rng.choice((1.0, 2.0))
        e = x * 1.0
        trips.append(T(str(i), S(a, 0.0, e, e + 30.0), S(b, 0.0, 0.0, INF), 1, INF, 1.0))
        x += rng.choice((1.0, 2.0, 3.0))
    vs = [V(str(k), S(0.0, 0.0), None, 1.0 + (k % 3)) for k in range(m)]
    return Inst(metric, vs, trips, "HashCode", ["long"])


def hidden(rng, n, m, burden=False):
    """An instance together with a feasible plan {vehicle: order}: every constraint of the plan is met, some of them tightly,
    most of them not at all, so that many other plans are possible (and better) and many break just one constraint. With `burden`,
    one vehicle begins with a far request next to which another vehicle passes anyway: handing it over pays and lets the first
    vehicle be early for everything that follows, where waiting counts against the tight ride limits."""
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    scale = rng.choice((5.0, 20.0))
    base = S(_r(rng, -3, 3), _r(rng, -3, 3), rng.choice((0.0, 10.0)), INF)
    places = [(_r(rng, -scale, scale), _r(rng, -scale, scale)) for _ in range(rng.choice((2, 3, 5, 100, 100, 100)))]
    vs = []
    for k in range(m):
        end = S(_r(rng, -scale, scale), _r(rng, -scale, scale)) if rng.random() < 0.2 else None
        vs.append(V(f"v{k}", base if rng.random() < 0.7 else S(_r(rng, -scale, scale), _r(rng, -scale, scale)), end, 0.0, INF))
    trips = []
    caps = DECIMALS if rng.random() < 0.2 else (1, 1, 2, 0.5)
    for i in range(n):
        o = S(*rng.choice(places), 0.0, INF, rng.choice((0.0, 0.0, 2.0)))
        d = S(*rng.choice(places), 0.0, INF, rng.choice((0.0, 0.0, 3.0)))
        trips.append(T(f"t{i}", o, d, rng.choice(caps), INF, float(rng.choice((0, 10)))))
    share = {v.id: [] for v in vs}
    for t in trips:
        if rng.random() < 0.9:
            share[rng.choice(vs).id].append(t)
    windows, limits = rng.choice((0.15, 0.4, 0.7)), rng.choice((0.2, 0.6, 0.9))
    burdens = {}
    if burden:
        windows, limits = 0.6, 0.9
        far, then = (_r(rng, -1, 1), 2 * scale), (_r(rng, -1, 1), 3 * scale)
        for k, v in enumerate(rng.sample(vs, 2)):
            t = T(f"x{k}", S(*far, 0.0, INF, 0.0), S(*then, 0.0, INF, 0.0), 1, INF, 0.0)
            trips.append(t)
            burdens[v.id] = t
    orders = {}
    for v in vs:
        order = orders[v.id] = plan_order(rng, share[v.id], rng.choice((0.0, 0.5, 0.9)))
        if v.id in burdens:
            t = burdens[v.id]
            order[:0] = [("p", t), ("d", t)]
            if rng.random() < 0.7:  # not the first one, after whose removal the departure is chosen anew
                t = T(f"y{v.id}", S(*v.o.pos, 0.0, INF, 0.0), S(*v.o.pos, 0.0, INF, 0.0), 1, INF, 0.0)
                trips.append(t)
                order[:0] = [("p", t), ("d", t)]
        pos, now, load, top = v.o.pos, v.o.e, 0.0, 1.0
        left = {}
        for kind, t in order:
            s = t.o if kind == "p" else t.d
            now += dist(metric, pos, s.pos)
            if rng.random() < windows:
                slack = 0.0 if burden else rng.choice((0.0, 1.0, 10.0, 40.0))
                if rng.random() < (0.2 if burden else 0.6):
                    now += rng.choice((0.0, 10.0, 60.0))
                    s.e = round(max(0.0, now - rng.choice((0.0, 0.0, slack))), 6)
                    now = max(now, s.e)
                elif burden:
                    s.e = round(now - 1e-6, 6)
                if rng.random() < (0.2 if burden else 0.6):
                    s.l = round(now + slack + 1e-5, 6)
            load += t.cap if kind == "p" else -t.cap
            top = max(top, load)
            if kind == "d" and rng.random() < limits:
                t.timeout = round(now - left[t.id], 6) + rng.choice((1e-5, 1.0, 5.0, 20.0))
            now += s.d
            if kind == "p":
                left[t.id] = now
            pos = s.pos
        now += dist(metric, pos, v.end.pos)
        v.cap = round(top + rng.choice((0.0, 0.0, 1.0)), 6)
        if rng.random() < 0.2:
            end = v.end
            v.d = S(end.x, end.y, 0.0, round(now + rng.choice((0.0, 2.0, 30.0)) + 1e-5, 6))
        if rng.random() < 0.2:
            v.timeout = round(now - v.o.e + rng.choice((0.0, 2.0, 30.0)) + 1e-5, 6)
    rng.shuffle(trips)
    return Inst(metric, vs, trips, rng.choice(("DialARide", "DialARide", "TaxiSharing", "HashCode")), ["hidden"]), orders


def nice(x):
    return x if not isinstance(x, float) or math.isinf(x) else round(x, 6)
