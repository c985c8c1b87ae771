"""Requests, vehicles, places and plans report exactly what they were made of."""
import copy
import math
import uuid

from .. import build, gen, observe, oracle, workload
from ..inst import Built, dist
from ..oracle import close

CASES = dict(quick=5000, thorough=60000)
REQUIRED = {"services": 8000, "defaults": 400, "equal_pairs": 1500, "different_pairs": 6000, "trips": 5000, "vehicles": 4000,
            "plans": 1500, "stops": 6000, "planned_trips": 2500, "shared_stops": 40, "after_edit": 400, "refused_routes": 200, "pieces": 1500}
RULE = (
    "case = model objects made from random values (some arguments left to their documented defaults, some values chosen so that "
    "their hashes coincide) or plans built and edited in random ways; every attribute, derived attribute, listing, mapping form "
    "(`dict(object)`), text form, equality and copy is compared with the values they were made of; non-trivial = at least one value "
    "differs from its default; distinct = by the values"
)
NUMBERS = (0.0, 1.0, -1.0, -2.0, 5.0, 314159.0, 2.0**61 - 1, 0.1, 0.7, 10.0, 1440.0, 7, 3)
INF = float("inf")


def same(a, b):
    if isinstance(a, float) and isinstance(b, (int, float)):
        return close(a, b) if math.isfinite(a) and math.isfinite(b) else a == b
    return a == b


def fields(ctx, what, obj, want, inst=None):
    """Attributes, one by one."""
    for name, value in want.items():
        got = getattr(obj, name)
        ctx.check(
            got is value or same(got, value), f"{what}:{name}", lambda: f"{got!r} instead of {value!r}", None if inst is None else inst.data()
        )


def mapping(ctx, what, obj, want):
    """The mapping form, and that it can be written."""
    got = dict(obj)
    ctx.check(set(want) <= set(got), f"{what}:mapping", lambda: f"{sorted(got)} lacks {sorted(set(want) - set(got))}")
    for k, v in want.items():
        if k in got:
            ctx.check(got[k] is v or same(got[k], v), f"{what}:mapping:{k}", lambda: f"{got[k]!r} instead of {v!r}")
    text = repr(obj)
    ctx.check(isinstance(text, str) and type(obj).__name__ in text, f"{what}:text", lambda: text[:200])
    for k, v in want.items():
        if isinstance(v, str) and v:
            ctx.check(v in text, f"{what}:text:{k}", lambda: f"{v!r} is not in {text[:300]!r}")


def some(rng, options):
    """A random part of the arguments; the others are left to their defaults."""
    return {k: v for k, v in options.items() if rng.random() < 0.6}


def make_service(jit, rng, surface):
    xy = tuple(float(rng.choice((-2, -1, 0, 1, 2, 0.5))) for _ in range(2))
    kw = some(rng, dict(earliest=rng.choice(NUMBERS), latest=rng.choice(NUMBERS + (INF,)), duration=rng.choice(NUMBERS)))
    position = surface.get_or_create_position(list(xy))
    want = dict(dict(earliest=0.0, latest=INF, duration=0.0), **kw)
    return jit.Service(position, **kw), xy, position, want


def primitives(ctx, rng):
    jit = ctx.jit
    metric = rng.choice(("EUCLIDEAN", "MANHATTAN"))
    surface = jit.GeometricSurface(getattr(jit.DistanceMetric, metric))
    made = [make_service(jit, rng, surface) for _ in range(4)]
    for s, xy, position, want in made:
        ctx.count("services")
        if len(set(want.values()) - {0.0, INF}):
            ctx.sig("service", xy, sorted(want.items()))
        else:
            ctx.count("defaults")
        fields(ctx, "service", s, dict(want, position=position))
        mapping(ctx, "service", s, dict(want, position=position))
        ctx.check(tuple(position.coordinates) == xy, "position:coordinates", lambda: f"{position.coordinates} of {xy}")
        ctx.check(tuple(position[k] for k in range(2)) == xy, "position:index", lambda: f"{[position[k] for k in range(2)]} of {xy}")
        ctx.check(position in surface.positions, "surface:positions", lambda: f"{xy}")
        ctx.check(copy.deepcopy(s) == s and copy.deepcopy(position) == position, "service:copy", lambda: f"{want}")
    twins = [make_service(jit, rng, surface)]
    s, xy, position, want = twins[0]
    twins.append((jit.Service(surface.get_or_create_position(list(xy)), **want), xy, None, want))
    changed = dict(want)
    k = rng.choice(sorted(want))
    changed[k] = rng.choice(NUMBERS + ((INF,) if k == "latest" else ()))
    twins.append((jit.Service(position, **changed), xy, None, changed))
    group = made + twins
    for a, axy, _, aw in group:
        for b, bxy, _, bw in group:
            equal = axy == bxy and aw == bw
            ctx.count("equal_pairs" if equal and a is not b else "different_pairs")
            ctx.check((a == b) is equal, "service:equality", lambda: f"{axy, aw} and {bxy, bw}: {a == b}")
            ctx.check((a != b) is not equal, "service:inequality", lambda: f"{axy, aw} and {bxy, bw}: {a != b}")
            if equal:
                ctx.check(hash(a) == hash(b), "service:hash", lambda: f"{aw}")
            pa, pb = a.position, b.position
            ctx.check((pa == pb) is (axy == bxy), "position:equality", lambda: f"{axy} and {bxy}")
            ctx.check((pa != pb) is (axy != bxy), "position:inequality", lambda: f"{axy} and {bxy}")
            ctx.check(axy != bxy or hash(pa) == hash(pb), "position:hash", lambda: f"{axy}")
    coordinates = {tuple(x) for x in dict(surface)["position_coordinates"]}
    ctx.check(coordinates == {x[1] for x in group}, "surface:listing", lambda: f"{coordinates}")
    known = {tuple(p.coordinates) for p in surface.positions}
    ctx.check(known == coordinates and len(surface.positions) == len(known), "surface:positions", lambda: f"{known}")
    ctx.check(jit.GeometricSurface(surface.metric).uuid != surface.uuid, "surface:uuid", "")
    given = uuid.UUID(int=rng.getrandbits(128))
    ctx.check(jit.GeometricSurface(surface.metric, uuid=given).uuid == given, "surface:given-uuid", "")
    ctx.check(not jit.GeometricSurface(surface.metric).positions, "surface:shared-positions", "")

    trips, vehicles = [], []
    for n in range(3):
        (o, oxy, op, ow), (d, dxy, dp, dw) = rng.choice(group), rng.choice(group)
        kw = some(rng, dict(capacity=rng.choice((0, 1, 2.0, 0.5, 4)), on_time_bonus=rng.choice(NUMBERS), timeout=rng.choice(NUMBERS + (INF,))))
        trip = jit.Trip(f"name-{n}", o, d, **kw)
        trips.append(trip)
        ctx.count("trips")
        want = dict(dict(capacity=1, on_time_bonus=0.0, timeout=INF), **kw)
        far = dist(metric, oxy, dxy)
        fields(
            ctx, "trip", trip,
            dict(want, identifier=f"name-{n}", origin=o, destination=d, origin_position=o.position, destination_position=d.position,
                 origin_duration=ow["duration"], destination_duration=dw["duration"], distance=far, empty=want["capacity"] == 0),
        )
        ctx.check(close(trip.duration(rng.choice((0.0, 100.0))), far), "trip:duration", lambda: f"{trip.duration(0.0)} instead of {far}")
        mapping(ctx, "trip", trip, dict(want, identifier=f"name-{n}", origin=tuple(o), destination=tuple(d)))
        ctx.check(copy.deepcopy(trip) is trip, "trip:copied", "")
        kw = some(rng, dict(capacity=rng.choice((1, 2.0, 0.5, 9)), timeout=rng.choice(NUMBERS + (INF,)), destination=d))
        vehicle = jit.Vehicle(f"car-{n}", o, **kw)
        vehicles.append(vehicle)
        ctx.count("vehicles")
        end, ew = (d, dw) if "destination" in kw else (o, ow)
        want = dict(dict(capacity=1.0, timeout=INF), **{k: v for k, v in kw.items() if k != "destination"})
        fields(
            ctx, "vehicle", vehicle,
            dict(want, identifier=f"car-{n}", origin=o, destination=end, origin_position=o.position, destination_position=end.position,
                 origin_earliest=ow["earliest"], origin_latest=ow["latest"], origin_duration=ow["duration"],
                 destination_earliest=ew["earliest"], destination_latest=ew["latest"], destination_duration=ew["duration"]),
        )
        mapping(ctx, "vehicle", vehicle, dict(want, identifier=f"car-{n}", origin=tuple(o), destination=tuple(end)))
    fleet = jit.Fleet(set(vehicles))
    ctx.check(set(fleet.vehicles) == set(vehicles), "fleet:vehicles", "")
    ctx.check(sorted(dict(fleet)["vehicle_identifiers"]) == sorted(v.identifier for v in vehicles), "fleet:mapping", lambda: f"{dict(fleet)}")
    ctx.check(copy.deepcopy(fleet) is fleet, "fleet:copied", "")
    repr(fleet)
    cls = rng.choice((None, jit.DialARideObjective, jit.TaxiSharingObjective, jit.HashCodeObjective))
    job = jit.Job(set(trips), cls)
    ctx.check(type(job.objective) is (cls or jit.DialARideObjective), "job:objective", lambda: f"{job.objective} for {cls}")
    ctx.check(job.objective is job.objective, "job:objective-varies", "")
    ctx.check(set(job.trips) == set(trips), "job:trips", "")
    ctx.check(sorted(dict(job)["trip_identifiers"]) == sorted(t.identifier for t in trips), "job:mapping", lambda: f"{dict(job)}")
    ctx.check(copy.deepcopy(job) is job, "job:copied", "")
    repr(job)
    pieces(ctx, rng, vehicles[0], trips)
    a, b, c = jit.Planning(), jit.Planning(), jit.Planning(uuid=given)
    ctx.check(a.uuid != b.uuid and c.uuid == given, "planning:uuid", lambda: f"{a.uuid, b.uuid, c.uuid}")
    ctx.check(len(a.routes) == 0 and a.routes is not b.routes, "planning:default-routes", "")
    ctx.check(a.feasible is True and list(a.trips) == [] and list(a.vehicles) == [], "planning:empty", "")


def pieces(ctx, rng, vehicle, trips):
    """Stops, planned requests and routes put together by hand, also half of them."""
    jit = ctx.jit
    trip = rng.choice(trips)
    ctx.count("pieces")
    first = jit.Stop(vehicle, vehicle.origin_position, None)
    pickup = jit.Stop(vehicle, trip.origin_position, first)
    delivery = jit.Stop(vehicle, trip.destination_position, pickup)
    last = jit.Stop(vehicle, vehicle.destination_position, delivery)
    kw = some(rng, dict(pickup=pickup, delivery=delivery))
    planned = jit.PlannedTrip(vehicle, trip, **kw)
    fields(ctx, "planned-trip", planned, dict(dict(pickup=None, delivery=None), **kw, vehicle=vehicle, trip=trip, trip_identifier=trip.identifier))
    for stop in (first, pickup, delivery, last):
        want = [planned] * (kw.get("pickup") is stop), [planned] * (kw.get("delivery") is stop)
        got = list(stop.pickup_planned_trips), list(stop.delivery_planned_trips)
        ctx.check(got == want, "stop:pieces", lambda: f"{sorted(kw)}: {[len(x) for x in got]} instead of {[len(x) for x in want]}")
        ctx.check(list(stop.planned_trips) == want[0] + want[1] and list(stop.trips) == [trip] * len(want[0] + want[1]), "stop:pieces", f"{sorted(kw)}")
    ctx.check(pickup.previous is first and first.previous is None and last.previous is delivery, "stop:previous", "")
    ctx.check(pickup.vehicle is vehicle and pickup.position is trip.origin_position, "stop:parts", "")
    given = jit.Stop(vehicle, trip.origin_position, first, pickups={planned})
    taken = jit.Stop(vehicle, trip.origin_position, first, deliveries={planned})
    ctx.check(
        (set(given.pickup_planned_trips), set(given.delivery_planned_trips)) == ({planned}, set())
        and (set(taken.pickup_planned_trips), set(taken.delivery_planned_trips)) == (set(), {planned}),
        "stop:given", "",
    )
    at = rng.choice((None, 5.0, 40.0))
    asked = jit.Stop(vehicle, vehicle.origin_position, None, starting_time=at)
    earliest = vehicle.origin_earliest
    ctx.check(close(asked.starting_time, max(earliest, at or 0.0)), "stop:starting-time", lambda: f"{asked.starting_time} for {at}, not before {earliest}")
    if set(kw) == {"pickup", "delivery"}:
        stops = [first, pickup, delivery, last]
        route = jit.Route(vehicle, stops)
        ctx.check(list(route.stops) == stops, "route:stops", "")
        route.remove_trip(trip)
        ctx.check(len(stops) == 4 and list(route.stops) == [first, last], "route:list-of-stops-shared", lambda: f"{len(stops)}, {len(route.stops)}")
    empty, other = jit.Route(vehicle), jit.Route(vehicle)
    ctx.check(
        [x.position for x in empty.stops] == [vehicle.origin_position, vehicle.destination_position]
        and empty.stops[1].previous is empty.stops[0] and empty.stops is not other.stops and empty.stops[0] is not other.stops[0],
        "route:default-stops", lambda: f"{empty.stops}",
    )


def plan(ctx, inst, result, routes):
    """All listings of a planning and of what it consists of."""
    jit = ctx.jit
    trips = inst.t()
    obs = [observe.route(r) for r in routes]
    data = inst.data()
    ctx.count("plans")
    planning = result.planning
    served = sorted(i for o in obs for s in o["stops"] for i in s["p"])
    for name, got, want in (
        ("planning:vehicles", sorted(v.identifier for v in planning.vehicles), sorted(o["vehicle"] for o in obs)),
        ("planning:trips", sorted(t.identifier for t in planning.trips), served),
        ("planning:planned_trips", sorted(p.trip_identifier for p in planning.planned_trips), served),
        ("planning:loaded_routes", sorted(r.vehicle_identifier for r in planning.loaded_routes),
         sorted(o["vehicle"] for o in obs if any(s["p"] for s in o["stops"]))),
        ("result:vehicles", sorted(v.identifier for v in result.vehicles), sorted(inst.v())),
        ("result:trips", sorted(t.identifier for t in result.trips), sorted(trips)),
        ("result:planning_uuid", result.planning_uuid, planning.uuid),
        ("result:completed", sorted(t.identifier for t in result.completed_trips), sorted(i for i in served if trips[i].cap != 0)),
        ("result:objective", type(result.objective).__name__, f"{inst.objective}Objective"),
    ):
        ctx.check(got == want, name, lambda: f"{got} instead of {want}", data)
    ctx.check({id(r) for r in result.routes} == {id(r) for r in routes}, "result:routes", lambda: f"{obs}")
    ctx.check(result.job is result.algorithm.job and result.fleet is result.algorithm.fleet, "result:problem", "")
    mapping(ctx, "planning", planning, dict(uuid=planning.uuid))
    ctx.check(
        sorted(dict(planning)["route_identifiers"]) == sorted(r.identifier for r in routes), "planning:mapping", lambda: f"{dict(planning)}"
    )
    mapping(ctx, "result", result, dict(planning_uuid=planning.uuid, algorithm_name=type(result.algorithm).__name__))
    for r, o in zip(routes, obs):
        ids = [
            "[" + "|".join([f"P{i}" for i in s["p"]] + [f"D{i}" for i in s["d"]]) + "]" for s in o["stops"]
        ]
        lone = all(len(s["p"]) < 2 and len(s["d"]) < 2 for s in o["stops"])
        fields(
            ctx, "route", r,
            dict(vehicle_identifier=o["vehicle"], current_arrival_time=r.stops[-2].arrival_time,
                 current_departure_time=r.stops[-2].departure_time, current_position=r.stops[-2].position,
                 first_stop=r.stops[0], last_stop=r.stops[-1], last_position=r.stops[-1].position),
        )
        if lone:
            ctx.check(r.identifier == "|".join(ids), "route:identifier", lambda: f"{r.identifier} instead of {ids}", data)
            mapping(ctx, "route", r, dict(vehicle_identifier=o["vehicle"], stops_identifiers=tuple(ids)))
        else:
            ctx.count("shared_stops")
        before = []
        for k, (s, w) in enumerate(zip(r.stops, o["stops"])):
            ctx.count("stops")
            want = {f"P{i}" for i in w["p"]} | {f"D{i}" for i in w["d"]}
            got = s.identifier
            ctx.check(
                got[:1] == "[" and got[-1:] == "]" and set(filter(None, got[1:-1].split("|"))) == want,
                "stop:identifier", lambda: f"{got} instead of {want}", data,
            )
            mapping(ctx, "stop", s, dict(position=s.position, identifier=got))
            ctx.check(
                sorted(p.trip_identifier for p in s.planned_trips) == sorted(w["p"] + w["d"]), "stop:planned_trips", lambda: f"{o}", data
            )
            ctx.check([id(x) for x in s.all_previous] == [id(x) for x in before[::-1]], "stop:all_previous", lambda: f"stop {k} of {o}", data)
            earlier = sorted(i for x in o["stops"][:k] for i in x["p"])
            ctx.check(
                sorted(p.trip_identifier for p in s.all_previous_pickups) == earlier, "stop:all_previous_pickups", lambda: f"stop {k} of {o}", data
            )
            before.append(s)
        for p in r.planned_trips:
            ctx.count("planned_trips")
            t = trips[p.trip.identifier]
            fields(
                ctx, "planned-trip", p,
                dict(trip_identifier=t.id, vehicle_identifier=o["vehicle"], origin=p.trip.origin_position, destination=p.trip.destination_position,
                     distance=dist(inst.metric, t.o.pos, t.d.pos), capacity=t.cap, timeout=t.timeout, empty=t.cap == 0,
                     pickup_time=p.pickup.departure_time, delivery_time=p.delivery.starting_time,
                     load_time=p.pickup.load_time + p.delivery.load_time),
                inst,
            )
            mapping(ctx, "planned-trip", p, dict(trip_identifier=t.id, pickup=p.pickup, delivery=p.delivery, feasible=p.feasible))
            ctx.check(p in p.pickup.pickup_planned_trips and p in p.delivery.delivery_planned_trips, "planned-trip:stops", lambda: f"{t.id}")
        repr(r)
        parts = [s.feasible for s in r.stops], [p.feasible for p in r.planned_trips]
        ctx.check(r.feasible_stops is all(parts[0]), "route:feasible_stops", lambda: f"{r.feasible_stops}: {parts} {o}", data)
        ctx.check(r.feasible_planned_trips is all(parts[1]), "route:feasible_planned_trips", lambda: f"{r.feasible_planned_trips}: {parts} {o}", data)
        refused(ctx, jit, r)
    if served:
        ctx.sig(obs)


def refused(ctx, jit, route):
    """The library's errors carry what they are about."""
    from jinete import exceptions

    if not route.feasible:
        ctx.count("refused_routes")
        error = exceptions.NonFeasibleRouteException(route)
        ctx.check(error.route is route and isinstance(error, exceptions.JineteException), "error:route", "")
    for p in route.planned_trips:
        if not p.feasible:
            error = exceptions.NonFeasiblePlannedTripException(p)
            ctx.check(error.planned_trip is p and p.trip_identifier in error.message, "error:planned-trip", lambda: error.message[:200])
            break


def plans(ctx, rng):
    jit = ctx.jit
    inst = gen.relaxed(rng, rng.choice((1, 2, 4, 6)), rng.choice((1, 2, 3))) if rng.random() < 0.6 else gen.instance(rng)
    ctx.note(inst.tags)
    if rng.random() < 0.3 and inst.trips:  # places in common, so that stops can be shared
        for t in inst.trips[1:]:
            t.o.x, t.o.y = inst.trips[0].o.x, inst.trips[0].o.y
    built = Built(jit, inst)
    if rng.random() < 0.15:
        name, desc, algorithm = workload.scenario(jit, built, rng, workload.ALL)
        result = algorithm.optimize()
        plan(ctx, inst, result, list(result.routes))
        return
    routes, used = [], set()
    for v in inst.vehicles:
        trips = [t for t in inst.trips if t.id not in used and rng.random() < 0.6]
        used |= {t.id for t in trips}
        if rng.random() < 0.3:
            order = gen.plan_order(rng, trips, rng.choice((0.0, 0.9)))
            routes.append(build.direct(jit, built, v, gen.spec_route(v, order, True, rng)))
        else:
            routes.append(build.random_route(jit, built, rng, v, trips)[0])
    result = built.result(routes)
    plan(ctx, inst, result, routes)
    for _ in range(rng.choice((0, 1, 2))):
        route = rng.choice(routes)
        inside = sorted(t.identifier for t in route.trips)
        if not inside:
            continue
        route.remove_trip(built.trips[rng.choice(inside)])
        ctx.count("after_edit")
        plan(ctx, inst, result, routes)


def case(ctx, i, rng):
    if rng.random() < 0.5:
        primitives(ctx, rng)
    else:
        plans(ctx, rng)
