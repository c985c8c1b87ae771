"""Independent reference model: judges an observed plan against the pure-data instance.

Nothing in here imports the library.  A plan is observed as plain data:
    route = {"vehicle": id, "stops": [{"pos": (x, y), "p": [trip ids], "d": [trip ids], "start": float, ...}]}
"""
from .inst import Inst, dist, INF

EB = 10e-4  # the tolerance the library documents for feasibility (ERROR_BOUND)
TOL = 1e-6


def trip_windows(inst: Inst, t):
    """Exact effective windows of one request: the pickup (delivery) start times that admit a matching delivery
    (pickup) time under both services' windows, the service time, the direct travel time and the ride limit."""
    travel = dist(inst.metric, t.o.pos, t.d.pos)
    oe = max(t.o.e, t.d.e - t.o.d - t.timeout)
    ol = min(t.o.l, t.d.l - t.o.d - travel)
    de = max(t.d.e, t.o.e + t.o.d + travel)
    dl = min(t.d.l, t.o.l + t.o.d + t.timeout)
    return oe, ol, de, dl


def simulate(inst: Inst, route, requested=None):
    """Forward simulation of a stop sequence: arrival, start, departure and load at every stop.

    `requested` gives, per stop, the explicitly requested start time (None for as soon as possible)."""
    v = inst.v()[route["vehicle"]]
    trips = inst.t()
    pos, t, load = v.o.pos, v.o.e, 0.0
    rows = []
    for k, s in enumerate(route["stops"]):
        travel = dist(inst.metric, pos, s["pos"])
        arrival = t + travel
        e, l, dur = 0.0, INF, 0.0
        for i in s["p"]:
            w = trip_windows(inst, trips[i])
            e, l, dur = max(e, w[0]), min(l, w[1]), max(dur, trips[i].o.d)
            load += trips[i].cap
        for i in s["d"]:
            w = trip_windows(inst, trips[i])
            e, l, dur = max(e, w[2]), min(l, w[3]), max(dur, trips[i].d.d)
            load -= trips[i].cap
        start = max(arrival, e)
        if requested is not None and requested[k] is not None:
            start = max(start, requested[k])
        rows.append(
            dict(arrival=arrival, start=start, departure=start + dur, load=load, travel=travel, e=e, l=l, dur=dur)
        )
        pos, t = s["pos"], start + dur
    return rows


def violations(inst: Inst, route, starts=None):
    """Amount by which each constraint of the problem is broken by a route (<= 0: satisfied).

    The start times are the observed ones.  Only the *primary* constraints of the instance are judged: service
    windows, loads, ride limits, vehicle shift, vehicle time limit, depots, and physical travel times."""
    v = inst.v()[route["vehicle"]]
    trips = inst.t()
    stops = route["stops"]
    out = {}

    def up(name, amount):
        if amount != amount:
            amount = INF
        if amount > out.get(name, -INF):
            out[name] = amount

    if starts is None:
        starts = [s["start"] for s in stops]
    pos, t, load = v.o.pos, v.o.e, 0.0
    picked = {}
    first_departure = None
    up("origin", 0.0 if tuple(stops[0]["pos"]) == tuple(v.o.pos) else INF)
    up("destination", 0.0 if tuple(stops[-1]["pos"]) == tuple(v.end.pos) else INF)
    for s, start in zip(stops, starts):
        arrival = t + dist(inst.metric, pos, s["pos"])
        up("travel", arrival - start)
        dur = 0.0
        for i in s["p"]:
            tr = trips[i]
            up("pickup_early", tr.o.e - start)
            up("pickup_late", start - tr.o.l)
            up("position", 0.0 if tuple(s["pos"]) == tuple(tr.o.pos) else INF)
            dur = max(dur, tr.o.d)
            load += tr.cap
        for i in s["d"]:
            tr = trips[i]
            up("delivery_early", tr.d.e - start)
            up("delivery_late", start - tr.d.l)
            up("position", 0.0 if tuple(s["pos"]) == tuple(tr.d.pos) else INF)
            dur = max(dur, tr.d.d)
            load -= tr.cap
            if i not in picked:
                up("precedence", INF)
            else:
                up("ride", start - picked[i] - tr.timeout)
        up("capacity", load - v.cap)
        up("negative_load", -load)
        departure = start + dur
        for i in s["p"]:
            picked[i] = departure
        if first_departure is None:
            first_departure = departure
            up("shift_start", v.o.e - start)
        pos, t = s["pos"], departure
    delivered = {i for s in stops for i in s["d"]}
    if set(picked) - delivered:
        up("undelivered", INF)
    up("shift_end", t - v.end.l)
    up("vehicle_timeout", (t - first_departure) - v.timeout)
    return out


def verdict(viol):
    """'ok' (all satisfied), 'bad' (some constraint broken beyond the tolerance) or 'grey' (within the tolerance)."""
    worst = max(viol.values())
    if worst <= TOL:
        return "ok"
    if worst > EB + TOL:
        return "bad"
    return "grey"


def broken(viol, margin=EB + TOL):
    return {k: round(a, 6) if a != INF else "inf" for k, a in viol.items() if a > margin}


def route_distance(inst: Inst, route):
    v = inst.v()[route["vehicle"]]
    pos, total = v.o.pos, 0.0
    for s in route["stops"]:
        total += dist(inst.metric, pos, s["pos"])
        pos = s["pos"]
    return total


def trip_times(inst, route):
    """(pickup departure, delivery start) per trip, from the observed start times."""
    trips = inst.t()
    out = {}
    for s in route["stops"]:
        dur = max([trips[i].o.d for i in s["p"]] + [trips[i].d.d for i in s["d"]], default=0.0)
        for i in s["p"]:
            out.setdefault(i, [None, None])[0] = s["start"] + dur
        for i in s["d"]:
            out.setdefault(i, [None, None])[1] = s["start"]
    return out


def objective_value(inst: Inst, name, routes):
    """The objective of a set of routes, from scratch."""
    trips = inst.t()
    if name == "DialARide":
        return (
            sum(len(s["p"]) for r in routes for s in r["stops"]),
            -sum(route_distance(inst, r) for r in routes),
        )
    total = 0.0
    for r in routes:
        for i, (a, b) in trip_times(inst, r).items():
            tr = trips[i]
            if tr.cap == 0:
                continue
            if name == "TaxiSharing":
                total += b - a
            else:
                total += dist(inst.metric, tr.o.pos, tr.d.pos)
                if trip_windows(inst, tr)[0] == a:
                    total += tr.bonus
    return (total,)


def assignment_errors(inst: Inst, routes):
    """Violations of 'each request at most once, entirely on one vehicle of the fleet, pickup before delivery'."""
    errs = []
    vs = set(inst.v())
    ts = set(inst.t())
    seen_v = set()
    seen_t = {}
    for k, r in enumerate(routes):
        if r["vehicle"] not in vs:
            errs.append(("foreign-vehicle", r["vehicle"]))
        if r["vehicle"] in seen_v:
            errs.append(("vehicle-twice", r["vehicle"]))
        seen_v.add(r["vehicle"])
        pk, dl = {}, {}
        for n, s in enumerate(r["stops"]):
            for i in s["p"]:
                if i in pk:
                    errs.append(("picked-twice", i))
                pk[i] = n
                if i not in ts:
                    errs.append(("foreign-trip", i))
            for i in s["d"]:
                if i in dl:
                    errs.append(("delivered-twice", i))
                dl[i] = n
        for i in set(pk) | set(dl):
            if i in seen_t and seen_t[i] != k:
                errs.append(("served-twice", i))
            seen_t[i] = k
            if i not in dl:
                errs.append(("not-delivered", i))
            elif i not in pk:
                errs.append(("not-picked-up", i))
            elif not pk[i] < dl[i]:
                errs.append(("delivered-before-pickup", i))
    return errs


def close(a, b, tol=1e-6):
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
