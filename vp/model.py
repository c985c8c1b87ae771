"""A long-lived route under random public edits, with an independent model of what it should then be.

The model is a list of plain stops: position, pickups, deliveries, requested start.  After every edit the live route can be
compared against a from-scratch simulation of the model."""
from . import observe, oracle
from .oracle import close


class Live:
    def __init__(self, jit, built, rng, vehicle, merge=False, partial=False):
        self.jit, self.built, self.rng, self.vehicle, self.merge, self.partial = jit, built, rng, vehicle, merge, partial
        self.inst = built.inst
        self.v = built.vehicles[vehicle.id]
        self.route = jit.Route(self.v)
        self.model = [
            dict(pos=tuple(vehicle.o.pos), p=[], d=[], req=None),
            dict(pos=tuple(vehicle.end.pos), p=[], d=[], req=None),
        ]
        self.ops = []

    # ---- state
    def inside(self):
        return [i for s in self.model for i in s["p"]]

    def outside(self):
        inside = set(self.inside())
        return [t for t in self.inst.trips if t.id not in inside]

    def shape(self):
        return dict(vehicle=self.vehicle.id, stops=[dict(pos=s["pos"], p=sorted(s["p"]), d=sorted(s["d"])) for s in self.model])

    def expected_structure(self):
        return (self.vehicle.id, tuple((s["pos"], tuple(sorted(s["p"])), tuple(sorted(s["d"]))) for s in self.model))

    def rows(self):
        return oracle.simulate(self.inst, self.shape(), [s["req"] for s in self.model])

    # ---- edits
    def append(self, t=None, a=None, b=None):
        outside = self.outside()
        if t is None:
            if not outside:
                return False
            t = self.rng.choice(outside)
        n = len(self.model)
        if a is None:
            a = self.rng.randint(0, n - 2)
            b = self.rng.randint(a, n - 2)
        trip = self.built.trips[t.id]
        pickup = self.jit.Stop(self.v, trip.origin_position, self.route.stops[a])
        delivery = self.jit.Stop(self.v, trip.destination_position, pickup if a == b else self.route.stops[b])
        self.route.append_planned_trip(self.jit.PlannedTrip(self.v, trip, pickup, delivery))
        self.model.insert(a + 1, dict(pos=tuple(t.o.pos), p=[t.id], d=[], req=None))
        self.model.insert(b + 2, dict(pos=tuple(t.d.pos), p=[], d=[t.id], req=None))
        self.ops.append(("append", t.id, a, b))
        return True

    def remove(self, i=None):
        inside = self.inside()
        if i is None:
            if not inside:
                return False
            i = self.rng.choice(inside)
        self.route.remove_trip(self.built.trips[i])
        for k in reversed(range(len(self.model))):
            s = self.model[k]
            if i in s["p"] or i in s["d"]:
                s["p"] = [x for x in s["p"] if x != i]
                s["d"] = [x for x in s["d"] if x != i]
                if not s["p"] and not s["d"]:
                    self.model.pop(k)
        self.ops.append(("remove", i))
        return True

    def delay(self):
        k = self.rng.randrange(0, len(self.model))
        base = self.route.stops[k].starting_time
        value = self.rng.choice((base + 0.5, base + 7.0, base + 60.0, base, max(0.0, base - 5.0)))
        return self.request(k, value, "delay")

    def request(self, k, value, op):
        """A requested start, noticed at once by the stop itself and, once they are asked to recompute, by those behind it."""
        stop = self.route.stops[k]
        if self.rng.random() < 0.5:
            stop.departure_time, stop.feasible
        stop.starting_time = value
        self.model[k]["req"] = value
        self.ops.append((op, k, value))
        row = self.rows()[k]
        got = stop.starting_time, stop.departure_time
        if self.partial and self.rng.random() < 0.5:
            for following in self.route.stops[k + 1 :]:
                following.flush()
        else:
            self.route.flush()
        return (close(got[0], row["start"]) and close(got[1], row["departure"])) or (f"requested-start-not-noticed:{op}", k, got, row)

    def reset(self):
        k = self.rng.randrange(0, len(self.model))
        return self.request(k, None, "reset")

    def waypoint(self):
        """A stop without requests, inserted by predecessor or by index."""
        k = self.rng.randint(1, len(self.model) - 1)
        pos = self.rng.choice([s["pos"] for s in self.model] + [(1.5, -2.5)])
        stop = self.jit.Stop(self.v, self.built.pos(pos), self.route.stops[k - 1])
        if self.rng.random() < 0.5:
            got = self.route.insert_stop(stop)
        else:
            got = self.route.insert_stop_at(k, stop)
        self.model.insert(k, dict(pos=tuple(pos), p=[], d=[], req=None))
        self.ops.append(("waypoint", k))
        return got is stop or ("insert-returns-other-stop", k)

    def drop(self):
        """Removal by index of a stop without requests."""
        ks = [k for k in range(1, len(self.model) - 1) if not self.model[k]["p"] and not self.model[k]["d"]]
        if not ks:
            return False
        k = self.rng.choice(ks)
        want = self.route.stops[k]
        got = self.route.remove_stop_at(k)
        self.model.pop(k)
        self.ops.append(("drop", k))
        return got is want or ("remove-returns-other-stop", k)

    def share(self):
        """A pickup joined to an existing stop at the same place (several requests served by one stop)."""
        if not self.merge:
            return False
        cands = [
            (t, k)
            for t in self.outside()
            for k in range(1, len(self.model) - 1)
            if self.model[k]["pos"] == tuple(t.o.pos) and (self.model[k]["p"] or self.model[k]["d"])
        ]
        if not cands:
            return False
        t, k = self.rng.choice(cands)
        trip = self.built.trips[t.id]
        b = self.rng.randint(k, len(self.model) - 2)
        delivery = self.jit.Stop(self.v, trip.destination_position, self.route.stops[b])
        self.jit.PlannedTrip(self.v, trip, self.route.stops[k], delivery)
        self.route.insert_stop(delivery)
        self.route.flush()
        self.model[k]["p"].append(t.id)
        self.model.insert(b + 1, dict(pos=tuple(t.d.pos), p=[], d=[t.id], req=None))
        self.ops.append(("share", t.id, k, b))
        return True

    def step(self, ops=("append", "append", "append", "remove", "delay", "reset", "waypoint", "drop", "share")):
        return getattr(self, self.rng.choice(ops))()


def timetable_errors(inst, route, rows):
    """Differences between a live route's reported timetable and a from-scratch simulation (list of (what, k, got, want))."""
    errs = []
    stops = list(route.stops)
    if len(stops) != len(rows):
        return [("stops", None, len(stops), len(rows))]

    def cmp(what, k, got, want):
        if not close(got, want):
            errs.append((what, k, got, want))

    for k, (s, r) in enumerate(zip(stops, rows)):
        cmp("arrival", k, s.arrival_time, r["arrival"])
        cmp("start", k, s.starting_time, r["start"])
        cmp("departure", k, s.departure_time, r["departure"])
        cmp("load", k, s.capacity, r["load"])
        cmp("waiting", k, s.waiting_time, r["start"] - r["arrival"])
        cmp("transit", k, s.transit_time, r["travel"])
        cmp("leg-distance", k, s.distance, r["travel"])
        cmp("service-time", k, s.load_time, r["dur"])
        cmp("earliest", k, s.earliest, r["e"])
        cmp("latest", k, s.latest, r["l"])
    cmp("route-duration", None, route.duration, rows[-1]["departure"] - rows[0]["departure"])
    cmp("route-distance", None, route.distance, sum(r["travel"] for r in rows))
    cmp("route-waiting", None, route.waiting_time, sum(r["start"] - r["arrival"] for r in rows))
    cmp("route-first-departure", None, route.first_departure_time, rows[0]["departure"])
    cmp("route-last-departure", None, route.last_departure_time, rows[-1]["departure"])
    where_p, where_d = {}, {}
    for k, s in enumerate(stops):
        for pt in s.pickup_planned_trips:
            where_p[pt.trip.identifier] = (k, pt)
        for pt in s.delivery_planned_trips:
            where_d[pt.trip.identifier] = k
    ride = 0.0
    for i, (a, pt) in where_p.items():
        b = where_d.get(i)
        if b is None or b <= a:
            errs.append(("ride-structure", i, a, b))
            continue
        cmp("pickup-time", i, pt.pickup_time, rows[a]["departure"])
        cmp("delivery-time", i, pt.delivery_time, rows[b]["start"])
        cmp("ride", i, pt.duration, rows[b]["start"] - rows[a]["departure"])
        cmp("ride-waiting", i, pt.waiting_time, sum(r["start"] - r["arrival"] for r in rows[a + 1 : b + 1]))
        cmp("ride-transit", i, pt.transit_time, sum(r["travel"] for r in rows[a + 1 : b + 1]))
        cmp("ride-service", i, pt.load_time, rows[a]["dur"] + rows[b]["dur"])
        ride += rows[b]["start"] - rows[a]["departure"]
    cmp("route-ride-time", None, route.transit_time, ride)
    return errs
