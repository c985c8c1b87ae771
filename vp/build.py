"""Building live routes from plain specifications through the library's public operations, in several ways."""
from . import gen


def direct(jit, built, vehicle, shape, requested=None):
    """Stops chained by hand, trips attached afterwards, the route made of the whole list."""
    v = built.vehicles[vehicle.id]
    stops, prev = [], None
    for k, s in enumerate(shape["stops"]):
        st = jit.Stop(
            v,
            built.pos(s["pos"]),
            prev,
            starting_time=None if requested is None else requested[k],
        )
        stops.append(st)
        prev = st
    where = {}
    for st, s in zip(stops, shape["stops"]):
        for i in s["p"]:
            where[i] = st
    for st, s in zip(stops, shape["stops"]):
        for i in s["d"]:
            jit.PlannedTrip(v, built.trips[i], where[i], st)
    return jit.Route(v, stops)


def append(jit, built, rng, vehicle, order, touch=None):
    """The same visiting order reached by appending the trips one by one in a random order.

    `touch(route)` is called between the edits (to fill whatever caches there are)."""
    v = built.vehicles[vehicle.id]
    route = jit.Route(v)
    ids = list(dict.fromkeys(t.id for _, t in order))
    rng.shuffle(ids)
    present = []  # entries of `order` already in the route, in route order
    index = {}
    for n, (kind, t) in enumerate(order):
        index[kind, t.id] = n
    for i in ids:
        if touch is not None:
            touch(route)
        pk, dl = index["p", i], index["d", i]
        a = sum(1 for x in present if x < pk)
        b = sum(1 for x in present if x < dl)
        prev = route.stops[a]
        pickup = jit.Stop(v, built.trips[i].origin_position, prev)
        prev_d = pickup if a == b else route.stops[b]
        delivery = jit.Stop(v, built.trips[i].destination_position, prev_d)
        route.append_planned_trip(jit.PlannedTrip(v, built.trips[i], pickup, delivery))
        present = sorted(present + [pk, dl])
    if touch is not None:
        touch(route)
    return route


def touch(route):
    """Reads everything a user may read, so that anything cached is cached."""
    route.feasible
    route.duration, route.distance, route.waiting_time, route.transit_time, route.identifier
    for s in route.stops:
        s.arrival_time, s.starting_time, s.departure_time, s.capacity, s.feasible, s.waiting_time
    for pt in route.planned_trips:
        pt.feasible, pt.duration, pt.waiting_time


def random_route(jit, built, rng, vehicle=None, trips=None, how=None):
    """A random live route on the instance, whatever its feasibility; returns (route, shape, order)."""
    inst = built.inst
    if vehicle is None:
        vehicle = rng.choice(inst.vehicles)
    if trips is None:
        trips = rng.sample(inst.trips, rng.randint(0, len(inst.trips)))
    order = gen.plan_order(rng, trips, rng.choice((0.0, 0.5, 0.9)))
    how = how or rng.choice(("direct", "append", "append-touched"))
    shape = gen.spec_route(vehicle, order)
    if how == "direct":
        return direct(jit, built, vehicle, shape), shape, order
    return append(jit, built, rng, vehicle, order, touch if how == "append-touched" else None), shape, order
