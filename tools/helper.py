"""Small builders used by the demonstration."""
import os
import sys

sys.path.insert(0, os.getcwd())
import jinete as jit  # noqa: E402

INF = float("inf")


def surface(metric="EUCLIDEAN"):
    return jit.GeometricSurface(getattr(jit.DistanceMetric, metric))


def service(s, x, y, e=0.0, l=INF, d=0.0):
    return jit.Service(s.get_or_create_position([float(x), float(y)]), earliest=e, latest=l, duration=d)


def trip(name, o, d, **kw):
    return jit.Trip(name, o, d, **kw)


def vehicle(name, o, **kw):
    return jit.Vehicle(name, o, **kw)


def route_of(v, visits, starts=None):
    """A route visiting [("p"|"d", trip), ...] in this order; starts: {visit number: requested start} (-1: the depot)."""
    starts = starts or {}
    stops = [jit.Stop(v, v.origin_position, None, starting_time=starts.get(-1))]
    at = {}
    for k, (kind, t) in enumerate(visits):
        pos = t.origin_position if kind == "p" else t.destination_position
        stops.append(jit.Stop(v, pos, stops[-1], starting_time=starts.get(k)))
        at[kind, t.identifier] = stops[-1]
    stops.append(jit.Stop(v, v.destination_position, stops[-1]))
    for kind, t in visits:
        if kind == "p":
            jit.PlannedTrip(v, t, at["p", t.identifier], at["d", t.identifier])
    return jit.Route(v, stops)


def order(route):
    out = []
    for s in route.stops:
        out += [("p", pt.trip.identifier) for pt in s.pickup_planned_trips]
        out += [("d", pt.trip.identifier) for pt in s.delivery_planned_trips]
    return out


def result_of(job, fleet, routes):
    algorithm = jit.NaiveAlgorithm(fleet=fleet, job=job)
    return jit.Result(algorithm, jit.Planning(set(routes)), 0.0)


def expect(cond, text):
    if not cond:
        print("WRONG:", text)
        sys.exit(1)
