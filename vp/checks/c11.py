"""Editing a route does what it says and nothing else."""
from .. import build, gen, model, observe, oracle
from ..inst import Built
from ..oracle import close

CASES = dict(quick=4000, thorough=80000)
REQUIRED = {"edits": 15000, "undone": 1500, "refused": 800, "refused_half": 100, "edit:append": 4000, "edit:remove": 1000, "edit:share": 50,
            "edit:waypoint": 1000, "edit:drop": 100, "first_replaced": 200, "views": 15000, "shared_removed": 20,
            "removed_from_shared": 10}
RULE = (
    "case = a long-lived route under a random sequence of edits mirrored on a plain list; after every edit the order of the "
    "stops, who is picked up and delivered where, the links between stops, and every view of the route (requests, loads, "
    "positions, feasibility) are compared with the list and with a route made afresh; non-trivial = an edit between two "
    "other requests' stops; distinct = by the edited structure"
)


def views(ctx, inst, route, live, what):
    jit, built = live.jit, live.built
    ctx.count("views")
    m = live.model
    got = observe.structure(route)
    ok = ctx.check(
        got == live.expected_structure(), f"{what}:order", lambda: f"{live.ops}: {got} instead of {live.expected_structure()}", inst.data()
    )
    links = observe.link_errors(route)
    ctx.check(not links, f"{what}:links", lambda: f"{live.ops}: {links[:3]}", inst.data())
    if not ok:
        return False
    inside = sorted(i for s in m for i in s["p"])
    caps = inst.t()
    loaded = sorted(i for i in inside if caps[i].cap != 0)
    for name, seen, want in (
        ("trips", sorted(t.identifier for t in route.trips), inside),
        ("planned_trips", sorted(p.trip.identifier for p in route.planned_trips), inside),
        ("pickups", sorted(p.trip.identifier for p in route.pickups), inside),
        ("deliveries", sorted(p.trip.identifier for p in route.deliveries), inside),
        ("loaded_trips", sorted(t.identifier for t in route.loaded_trips), loaded),
        ("loaded_trips_count", route.loaded_trips_count, len(loaded)),
        ("loaded", bool(route.loaded), bool(inside)),
        ("positions", [tuple(p.coordinates) for p in route.positions], [s["pos"] for s in m]),
        ("first_stop", tuple(route.first_stop.position.coordinates), m[0]["pos"]),
        ("last_stop", tuple(route.last_position.coordinates), m[-1]["pos"]),
        ("current_stop", tuple(route.current_position.coordinates), m[-2]["pos"]),
        ("stops", len(route.stops), len(m)),
    ):
        ctx.check(seen == want, f"{what}:view:{name}", lambda: f"{live.ops}: {seen} instead of {want}", inst.data())
    for k, (s, w) in enumerate(zip(route.stops, m)):
        ctx.check(
            sorted(t.identifier for t in s.trips) == sorted(w["p"] + w["d"]),
            f"{what}:view:stop-trips",
            lambda: f"stop {k}: {live.ops}",
            inst.data(),
        )
    # what a stop asks for is what the requests it still serves ask for
    for k, (row, s) in enumerate(zip(live.rows(), route.stops)):
        got = s.earliest, s.latest, s.load_time, s.capacity
        want = row["e"], row["l"], row["dur"], row["load"]
        ctx.check(
            all(close(a, b) for a, b in zip(got, want)),
            f"{what}:view:stop-asks",
            lambda: f"stop {k}: {got} instead of {want}: {live.ops}",
            inst.data(),
        )
    # the answer on feasibility is that of a route made afresh with the same content
    fresh = build.direct(jit, Built(jit, inst), live.vehicle, live.shape(), [s["req"] for s in m])
    ctx.check(route.feasible == fresh.feasible, f"{what}:view:feasible", lambda: f"{live.ops}", inst.data())
    return True


def undo(ctx, rng, inst, live):
    """Adding a request and taking it back leaves everything as it was."""
    route = live.route
    outside = live.outside()
    if not outside:
        return
    before, feasible = observe.fingerprint(route), route.feasible
    keep_model, keep_ops = [dict(s, p=list(s["p"]), d=list(s["d"])) for s in live.model], list(live.ops)
    added = rng.sample(outside, min(len(outside), rng.choice((1, 1, 2))))
    for t in added:
        live.append(t)
        if rng.random() < 0.5:
            build.touch(route)
    rng.shuffle(added)
    for t in added:
        route.remove_trip(live.built.trips[t.id])
        if rng.random() < 0.5:
            build.touch(route)
    live.model, live.ops = keep_model, keep_ops + [("undone", [t.id for t in added])]
    ctx.count("undone")
    ctx.check(observe.fingerprint(route) == before, "undo:changed", lambda: f"{live.ops}", inst.data())
    ctx.check(route.feasible == feasible, "undo:feasibility", lambda: f"{live.ops}", inst.data())


def refuse(ctx, rng, inst, live):
    """A stop that should follow one that is not in the route is refused, and nothing changes."""
    from jinete.exceptions import PreviousStopNotInRouteException

    jit, route = live.jit, live.route
    if rng.random() < 0.5:
        stranger = jit.Stop(live.v, route.stops[0].position, None)
    else:
        stranger = rng.choice(jit.Route(live.v).stops)
    before, feasible = observe.fingerprint(route), route.feasible
    outside = live.outside()
    stop = jit.Stop(live.v, live.built.pos((1.0, 1.0)), stranger)
    ctx.count("refused")
    try:
        if outside and rng.random() < 0.5:
            trip = live.built.trips[rng.choice(outside).id]
            # nothing of it is inserted when only one of its two stops can be
            at = rng.randrange(len(route.stops) - 1)
            ends = rng.choice(((stranger, route.stops[at]), (route.stops[at], stranger), (stranger, stranger)))
            ctx.count("refused_half" if ends[0] is not stranger else "refused_whole")
            pickup = jit.Stop(live.v, trip.origin_position, ends[0])
            delivery = jit.Stop(live.v, trip.destination_position, ends[1])
            route.append_planned_trip(jit.PlannedTrip(live.v, trip, pickup, delivery))
        else:
            route.insert_stop(stop)
    except PreviousStopNotInRouteException as exc:
        ctx.check(exc.route is route and isinstance(exc.stop, jit.Stop), "refusal:route", "")
    else:
        ctx.violation("refusal:accepted", f"{live.ops}", inst.data())
    ctx.check(observe.fingerprint(route) == before and route.feasible == feasible, "refusal:changed", lambda: f"{live.ops}", inst.data())


def replace_first(ctx, rng, inst, live):
    """A stop without predecessor takes the place of the first one."""
    jit, route = live.jit, live.route
    if live.model[0]["p"] or live.model[0]["d"]:
        return
    pos = rng.choice((live.model[0]["pos"], (0.5, 0.25)))
    stop = jit.Stop(live.v, live.built.pos(pos), None)
    got = route.insert_stop(stop)
    live.model[0] = dict(pos=tuple(pos), p=[], d=[], req=None)
    live.ops.append(("first", pos))
    ctx.count("first_replaced")
    ctx.check(got is stop and route.stops[0] is stop, "first:not-replaced", lambda: f"{live.ops}", inst.data())


def case(ctx, i, rng):
    jit = ctx.jit
    inst = gen.relaxed(rng, rng.choice((2, 3, 4, 6)), 1) if rng.random() < 0.7 else gen.instance(rng, m=1)
    common = rng.random() < 0.3
    if common:
        p = inst.trips[0].o
        for t in inst.trips[: rng.randint(1, len(inst.trips))]:
            t.o.x, t.o.y = p.x, p.y
    if common and rng.random() < 0.5:
        # several at one stop, of which one asks for the impossible
        bad = rng.choice(inst.trips)
        bad.o.l = min(bad.o.l, rng.choice((0.0, 0.5, 2.0)))
        bad.o.e = min(bad.o.e, bad.o.l)
    if rng.random() < 0.3:
        gen.tighten(rng, inst, inst.vehicles[0], gen.plan_order(rng, inst.trips, 0.6))
    built = Built(jit, inst)
    live = model.Live(jit, built, rng, inst.vehicles[0], merge=True)
    ops = ("append", "append", "append", "remove", "delay", "waypoint", "drop") + (("share", "share", "share") if common else ())
    for _ in range(rng.choice((3, 6, 10))):
        if rng.random() < 0.6:
            build.touch(live.route)
        shared = {i for s in live.model for i in s["p"] if len(s["p"]) > 1}
        done = live.step(ops)
        if not done:
            continue
        how = live.ops[-1][0]
        ctx.count("edits")
        ctx.count(f"edit:{how}")
        if how == "remove" and live.ops[-1][1] in shared:
            ctx.count("removed_from_shared")
        ctx.check(done is True, f"{how}:answer", lambda: f"{done} {live.ops}")
        if any(len(s["p"]) > 1 for s in live.model):
            ctx.count("shared_removed")
        if how in ("append", "remove") and len(live.model) > 5:
            ctx.sig(live.expected_structure())
        if not views(ctx, inst, live.route, live, how):
            return
        x = rng.random()
        if x < 0.25:
            undo(ctx, rng, inst, live)
        elif x < 0.35:
            refuse(ctx, rng, inst, live)
        elif x < 0.4:
            replace_first(ctx, rng, inst, live)
        if x < 0.4 and not views(ctx, inst, live.route, live, "after-undo"):
            return
    ctx.sample(dict(instance=inst.data(), edits=live.ops))
