"""A copy of a route, planning or result says exactly the same as the original and leads its own life."""
import copy

from .. import build, gen, model, observe, oracle, workload
from ..inst import Built
from ..oracle import close

CASES = dict(quick=3000, thorough=50000)
REQUIRED = {"clones": 1000, "prefix_clones": 600, "deepcopies": 300, "edits": 3000, "twin_edits": 800, "requested_starts": 300, "open_at_cut": 100,
            "plannings": 150, "results": 150, "long": 10, "shared_stops": 30}
RULE = (
    "case = a route (built by random edits, with delayed starts and shared stops, or by a solver, short or very long) "
    "copied by clone / clone from a position / deepcopy, or a whole planning or result copied; the copy is compared with the "
    "original, then one of the two is edited at random and the other watched; non-trivial = two requests aboard at once or a "
    "delayed start; distinct = by structure, times and kind of copy"
)


def times(r):
    return [(s.arrival_time, s.starting_time, s.departure_time, s.capacity) for s in r.stops]


def same_times(a, b):
    return len(a) == len(b) and all(close(x, y) for p, q in zip(a, b) for x, y in zip(p, q))


def compare(ctx, kind, inst, original, duplicate, shared_below=0):
    ctx.check(
        observe.structure(original) == observe.structure(duplicate),
        f"{kind}:structure",
        lambda: f"{observe.structure(original)} -> {observe.structure(duplicate)}",
        inst.data(),
    )
    ctx.check(same_times(times(original), times(duplicate)), f"{kind}:times", lambda: f"{times(original)} -> {times(duplicate)}", inst.data())
    ctx.check(original.feasible == duplicate.feasible, f"{kind}:feasibility", "", inst.data())
    links = observe.link_errors(duplicate)
    ctx.check(not links, f"{kind}:links", lambda: f"{links[:3]}", inst.data())
    links = observe.link_errors(original)
    ctx.check(not links, f"{kind}:original-links", lambda: f"{links[:3]}", inst.data())
    ctx.check(duplicate.vehicle is original.vehicle, f"{kind}:vehicle-object", "", inst.data())
    mine = {t.identifier: t for t in original.trips}
    ctx.check(all(mine.get(t.identifier) is t for t in duplicate.trips), f"{kind}:request-objects", "", inst.data())
    ids = {id(s) for s in original.stops}
    shared = [k for k, s in enumerate(duplicate.stops) if id(s) in ids]
    ctx.check(all(k < shared_below for k in shared), f"{kind}:shared-stops", lambda: f"{shared} below {shared_below}", inst.data())
    pts = {id(p) for s in original.stops[shared_below:] for p in list(s.pickup_planned_trips) + list(s.delivery_planned_trips)}
    bad = [
        p.trip.identifier
        for s in duplicate.stops[shared_below:]
        for p in list(s.pickup_planned_trips) + list(s.delivery_planned_trips)
        if id(p) in pts
    ]
    ctx.check(not bad, f"{kind}:shared-planned-trips", lambda: f"{bad}", inst.data())


def edit(ctx, rng, jit, built, route, spare):
    """A random public edit of a live route."""
    route.feasible
    how = rng.choice(("append", "remove", "delay", "waypoint"))
    trips = list(route.trips)
    n = len(route.stops)
    if how == "append" and spare:
        t = rng.choice(spare)
        a = rng.randint(0, n - 2)
        b = rng.randint(a, n - 2)
        p = jit.Stop(route.vehicle, t.origin_position, route.stops[a])
        d = jit.Stop(route.vehicle, t.destination_position, p if a == b else route.stops[b])
        spare.remove(t)
        route.append_planned_trip(jit.PlannedTrip(route.vehicle, t, p, d))
    elif how == "remove" and trips:
        t = rng.choice(sorted(trips, key=lambda t: t.identifier))
        route.remove_trip(t)
        spare.append(t)
    elif how == "delay":
        k = rng.randrange(n)
        route.stops[k].starting_time = route.stops[k].starting_time + rng.choice((1.0, 20.0))
        route.flush()
    else:
        k = rng.randint(1, n - 1)
        route.insert_stop_at(k, jit.Stop(route.vehicle, route.stops[k].position, route.stops[k - 1]))
    ctx.count("edits")
    return how


def watch(ctx, rng, jit, built, kind, inst, edited, watched):
    before, feasible = observe.fingerprint(watched), watched.feasible
    inside = {t.identifier for t in edited.trips}
    spare = [built.trips[t.id] for t in inst.trips if t.id not in inside]
    done = [edit(ctx, rng, jit, built, edited, spare) for _ in range(rng.choice((1, 2, 4)))]
    for how in ("remembered", "recomputed"):
        if how == "recomputed":
            watched.flush()
        ctx.check(
            observe.fingerprint(watched) == before and watched.feasible == feasible,
            f"{kind}:follows-edits:{how}",
            lambda: f"after {done}",
            inst.data(),
        )
    links = observe.link_errors(watched) + observe.link_errors(edited)
    ctx.check(not links, f"{kind}:links-after-edits", lambda: f"{done}: {links[:3]}", inst.data())


def twin(ctx, rng, jit, built, kind, inst, original, duplicate):
    """The same edits done to both: as equals they stay equal, however the times move."""
    for _ in range(rng.choice((1, 2, 3))):
        state = rng.getstate()
        for n, route in enumerate((original, duplicate)):
            rng.setstate(state)
            inside = {t.identifier for t in route.trips}
            spare = [built.trips[t.id] for t in inst.trips if t.id not in inside]
            if rng.random() < 0.5 and any(route.trips):
                early = sorted(route.pickups, key=lambda p: (route.stops.index(p.pickup), p.trip.identifier))[0]
                route.remove_trip(early.trip)
                done = "remove-first"
            elif rng.random() < 0.4:
                j = rng.randrange(len(route.stops))
                route.stops[j].starting_time = rng.choice((None, 5.0))
                route.flush()
                done = "release"
            else:
                done = edit(ctx, rng, jit, built, route, spare)
        ctx.count("twin_edits")
        ctx.check(
            observe.structure(original) == observe.structure(duplicate) and same_times(times(original), times(duplicate)),
            f"{kind}:same-edits-differ",
            lambda: f"{done}: {times(original)} / {times(duplicate)}",
            inst.data(),
        )
        ctx.check(original.feasible == duplicate.feasible, f"{kind}:same-edits-verdict", lambda: done, inst.data())


def open_at(route, k):
    """Requests picked up before position k and delivered from k on."""
    a = {p.trip.identifier for s in route.stops[:k] for p in s.pickup_planned_trips}
    b = {p.trip.identifier for s in route.stops[k:] for p in s.delivery_planned_trips}
    return a & b


def one_route(ctx, rng, jit, built, inst, route):
    n = len(route.stops)
    asap = oracle.simulate(inst, observe.route(route))
    delayed = sum(1 for s, r in zip(route.stops, asap) if s.starting_time > r["start"] + 1e-9)
    if delayed:
        ctx.count("requested_starts")
    if any(len(s.pickup_planned_trips) + len(s.delivery_planned_trips) > 1 for s in route.stops):
        ctx.count("shared_stops")
    if delayed or any(s.capacity > 1 for s in route.stops):
        ctx.sig(observe.structure(route), [round(s.starting_time, 5) for s in route.stops])
    kind = rng.choice(("clone", "clone", "prefix", "prefix", "deepcopy"))
    if rng.random() < 0.5:
        route.flush()
    if kind == "clone":
        duplicate = route.clone()
        ctx.count("clones")
        compare(ctx, kind, inst, route, duplicate)
    elif kind == "deepcopy":
        duplicate = copy.deepcopy(route)
        ctx.count("deepcopies")
        compare(ctx, kind, inst, route, duplicate)
    else:
        k = rng.randint(0, n)
        duplicate = route.clone(k)
        ctx.count("clones")
        ctx.count("prefix_clones")
        if open_at(route, k):
            ctx.count("open_at_cut")
        compare(ctx, "prefix", inst, route, duplicate, k)
        # what was cut stays common; a change from the cut on is private
        delayable = [j for j in range(k, n) if duplicate.stops[j] is not route.stops[j]]
        if delayable:
            before = observe.fingerprint(route)
            j = rng.choice(delayable)
            duplicate.stops[j].starting_time = duplicate.stops[j].starting_time + 9.0
            duplicate.flush()
            route.flush()
            ctx.check(observe.fingerprint(route) == before, "prefix:follows-edits", "", inst.data())
        return
    draw = rng.random()
    if draw < 0.4:
        twin(ctx, rng, jit, built, kind, inst, route, duplicate)
    elif draw < 0.7:
        watch(ctx, rng, jit, built, kind, inst, duplicate, route)
    else:
        watch(ctx, rng, jit, built, kind, inst, route, duplicate)


def whole(ctx, rng, jit, built, inst):
    name, desc, algorithm = workload.scenario(jit, built, rng, workload.ALL)
    result = algorithm.optimize()
    kind = rng.choice(("planning", "result", "routes"))
    if kind == "planning":
        original, duplicate = result.planning.routes, copy.deepcopy(result.planning).routes
    elif kind == "result":
        other = copy.deepcopy(result)
        original, duplicate = result.routes, other.routes
        ctx.count("results")
        ctx.check(other.job is result.job or observe.job_snapshot(other.job) == observe.job_snapshot(result.job),
                  "result:requests", "", inst.data())
        ctx.check(
            close(sum(other.optimization_value), sum(result.optimization_value))
            and other.feasible == result.feasible
            and other.coverage_rate == result.coverage_rate,
            "result:summary",
            lambda: f"{result.optimization_value} -> {other.optimization_value}",
            inst.data(),
        )
    else:
        original, duplicate = set(result.routes), copy.deepcopy(set(result.routes))
    ctx.count("plannings")
    a = {r.vehicle.identifier: r for r in original}
    b = {r.vehicle.identifier: r for r in duplicate}
    if not ctx.check(len(original) == len(duplicate) and set(a) == set(b), f"{kind}:routes", f"{set(a)} -> {set(b)}", inst.data()):
        return
    for v in a:
        compare(ctx, kind, inst, a[v], b[v])
    if a:
        v = rng.choice(sorted(a))
        if rng.random() < 0.3:
            twin(ctx, rng, jit, built, kind, inst, a[v], b[v])
            return
        watch(ctx, rng, jit, built, kind, inst, *((a[v], b[v]) if rng.random() < 0.5 else (b[v], a[v])))


def case(ctx, i, rng):
    jit = ctx.jit
    how = rng.choice(("live", "live", "live", "random", "solver", "whole", "whole") + (("long",) if rng.random() < 0.3 else ()))
    if how == "whole":
        inst, built = workload.make(ctx, rng, n=rng.choice((2, 3, 5)))
        whole(ctx, rng, jit, built, inst)
        return
    if how == "long":
        inst = gen.long_line(rng, rng.choice((40, 260)), 1)
        built = Built(jit, inst)
        order = [(k, t) for t in inst.trips for k in "pd"]
        route = build.direct(jit, built, inst.vehicles[0], gen.spec_route(inst.vehicles[0], order))
        ctx.count("long")
        routes = [route]
    elif how == "solver":
        inst, built = workload.make(ctx, rng)
        routes = list(workload.scenario(jit, built, rng, workload.ALL)[2].optimize().routes)
    elif how == "random":
        inst = gen.instance(rng, m=1)
        built = Built(jit, inst)
        routes = [build.random_route(jit, built, rng)[0]]
    else:
        inst = gen.relaxed(rng, rng.choice((2, 3, 5)), 1)
        if rng.random() < 0.3:
            p = inst.trips[0].o
            for t in inst.trips:
                t.o.x, t.o.y = p.x, p.y
        built = Built(jit, inst)
        live = model.Live(jit, built, rng, inst.vehicles[0], merge=True)
        for _ in range(rng.choice((3, 6, 12))):
            live.step()
        routes = [live.route]
    for route in routes:
        one_route(ctx, rng, jit, built, inst, route)
    ctx.sample(dict(instance=inst.data(), source=how, routes=[observe.route(r) for r in routes][:2]) if how != "long" else dict(source=how))
