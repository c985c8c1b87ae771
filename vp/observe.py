"""Observation of the library's live objects as plain data, through the public API only."""


def stop(s, timeline=False):
    out = dict(
        pos=tuple(s.position.coordinates),
        p=sorted(pt.trip.identifier for pt in s.pickup_planned_trips),
        d=sorted(pt.trip.identifier for pt in s.delivery_planned_trips),
        start=s.starting_time,
    )
    if timeline:
        out.update(
            arrival=s.arrival_time,
            departure=s.departure_time,
            load=s.capacity,
            waiting=s.waiting_time,
            transit=s.transit_time,
            distance=s.distance,
            load_time=s.load_time,
            earliest=s.earliest,
            latest=s.latest,
        )
    return out


def route(r, timeline=False):
    return dict(vehicle=r.vehicle.identifier, stops=[stop(s, timeline) for s in r.stops])


def routes(rs):
    return sorted((route(r) for r in rs), key=lambda r: (r["vehicle"], repr(r["stops"])))


def structure(r):
    """What a route does, without times: vehicle and sequence of (position, pickups, deliveries)."""
    return (
        r.vehicle.identifier,
        tuple(
            (
                tuple(s.position.coordinates),
                tuple(sorted(pt.trip.identifier for pt in s.pickup_planned_trips)),
                tuple(sorted(pt.trip.identifier for pt in s.delivery_planned_trips)),
            )
            for s in r.stops
        ),
    )


def fingerprint(r):
    """Everything observable about a route: structure, identity of the chain, and all times."""
    return (
        structure(r),
        tuple((s.arrival_time, s.starting_time, s.departure_time, s.capacity) for s in r.stops),
        tuple(id(s) for s in r.stops),
        tuple(None if s.previous is None else id(s.previous) for s in r.stops),
        tuple(
            sorted(
                (pt.trip.identifier, id(pt), id(pt.pickup), id(pt.delivery), pt.vehicle.identifier)
                for s in r.stops
                for pt in s.pickup_planned_trips
            )
        ),
    )


def link_errors(r):
    """Dangling or crossed references inside a live route."""
    errs = []
    stops = list(r.stops)
    for k, s in enumerate(stops):
        want = stops[k - 1] if k else None
        if s.previous is not want:
            errs.append(f"stop {k}: predecessor is not the stop before it")
        if s.vehicle is not r.vehicle:
            errs.append(f"stop {k}: foreign vehicle")
        for pt in s.pickup_planned_trips:
            if pt.pickup is not s:
                errs.append(f"stop {k}: pickup of {pt.trip.identifier} points elsewhere")
            if not any(pt in q.delivery_planned_trips for q in stops):
                errs.append(f"stop {k}: picked up {pt.trip.identifier} has no delivery stop here")
            if pt.vehicle is not r.vehicle:
                errs.append(f"stop {k}: planned trip {pt.trip.identifier} on foreign vehicle")
        for pt in s.delivery_planned_trips:
            if pt.delivery is not s:
                errs.append(f"stop {k}: delivery of {pt.trip.identifier} points elsewhere")
            if not any(pt in q.pickup_planned_trips for q in stops):
                errs.append(f"stop {k}: delivered {pt.trip.identifier} has no pickup stop here")
    return errs


def job_snapshot(job):
    return tuple(
        sorted(
            (
                t.identifier,
                id(t),
                tuple(t.origin.position.coordinates),
                t.origin.earliest,
                t.origin.latest,
                t.origin.duration,
                tuple(t.destination.position.coordinates),
                t.destination.earliest,
                t.destination.latest,
                t.destination.duration,
                t.capacity,
                t.timeout,
                t.on_time_bonus,
            )
            for t in job.trips
        )
    )


def fleet_snapshot(fleet):
    return tuple(
        sorted(
            (
                v.identifier,
                id(v),
                tuple(v.origin.position.coordinates),
                v.origin.earliest,
                v.origin.latest,
                tuple(v.destination.position.coordinates),
                v.destination.earliest,
                v.destination.latest,
                v.capacity,
                v.timeout,
            )
            for v in fleet.vehicles
        )
    )


def job_snapshot_plain(job):
    return [t[:1] + t[2:] for t in job_snapshot(job)]


def fleet_snapshot_plain(fleet):
    return [v[:1] + v[2:] for v in fleet_snapshot(fleet)]
