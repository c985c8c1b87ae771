"""The reported timetable is the physical consequence of the visiting order, always up to date."""
from .. import build, gen, model, observe, oracle, workload
from ..inst import Built

CASES = dict(quick=3500, thorough=60000)
REQUIRED = {"timetables": 5000, "stops": 20000, "waiting": 1000, "after:append": 800, "after:remove": 150, "after:delay": 150,
            "after:share": 20, "after:waypoint": 150, "solver_routes": 300, "direct": 400}
RULE = (
    "case = a route built in one go, or a long-lived route under a random sequence of edits (requests appended and removed, "
    "stops inserted and dropped, start times delayed and released, stops shared) with values read or not in between, or the "
    "routes of a solver run; after every step all reported times, loads and distances are compared with a simulation from "
    "scratch; non-trivial = at least one request and one waiting or delayed stop; distinct = by the whole timetable"
)


def compare(ctx, inst, route, rows, how, ops=None):
    errs = model.timetable_errors(inst, route, rows)
    ctx.count("timetables")
    ctx.count("stops", len(rows))
    ctx.count(f"after:{how}")
    waits = sum(1 for r in rows if r["start"] > r["arrival"] + 1e-9)
    if waits:
        ctx.count("waiting", waits)
    if waits and len(rows) > 3:
        ctx.sig([(round(r["arrival"], 5), round(r["start"], 5), r["load"]) for r in rows])
    ctx.check(
        not errs,
        f"timetable:{'+'.join(sorted({e[0] for e in errs})[:3])}",
        lambda: f"after {how} {ops}: {errs[:4]} route {observe.route(route)}",
        inst.data(),
    )
    return not errs


def read(rng, route):
    stops = list(route.stops)
    rng.shuffle(stops)
    for s in stops[: rng.randint(0, len(stops))]:
        getattr(s, rng.choice(("departure_time", "arrival_time", "capacity", "feasible", "starting_time", "waiting_time")))
    if rng.random() < 0.5:
        route.feasible


def case(ctx, i, rng):
    jit = ctx.jit
    kind = rng.choice(("live", "live", "live", "direct", "append", "solver"))
    if kind == "solver":
        inst, built = workload.make(ctx, rng)
        name, desc, algorithm = workload.scenario(jit, built, rng, workload.ALL)
        ctx.note((name, desc))
        for route in algorithm.optimize().routes:
            obs = observe.route(route)
            asap = oracle.simulate(inst, obs)
            # a start later than necessary is a decision of the solver; everything else follows from it
            rows = oracle.simulate(inst, obs, [s["start"] for s in obs["stops"]])
            ctx.count("solver_routes")
            compare(ctx, inst, route, rows, "solver")
            route.flush()
            compare(ctx, inst, route, rows, "solver-flushed")
            ctx.check(
                all(s["start"] >= a["start"] - 1e-6 for s, a in zip(obs["stops"], asap)),
                "start-before-possible",
                lambda: f"{obs}",
                inst.data(),
            )
        return
    inst = gen.relaxed(rng, rng.choice((1, 2, 3, 4, 6)), 1) if rng.random() < 0.6 else gen.instance(rng, m=1)
    if rng.random() < 0.2:
        places = [t.o for t in inst.trips]
        for t in inst.trips:  # common pickup places, so that stops can be shared
            p = rng.choice(places[: max(1, len(places) // 2)])
            t.o.x, t.o.y = p.x, p.y
    built = Built(jit, inst)
    vehicle = inst.vehicles[0]
    if kind == "live":
        live = model.Live(jit, built, rng, vehicle, merge=True, partial=True)
        for _ in range(rng.choice((2, 4, 8, 14))):
            if rng.random() < 0.7:
                read(rng, live.route)
            done = live.step()
            if not done:
                continue
            how = live.ops[-1][0]
            ctx.check(done is True, f"returns:{how}", lambda: f"{done} {live.ops}")
            ctx.check(
                observe.structure(live.route) == live.expected_structure(),
                f"structure:{how}",
                lambda: f"{live.ops}: {observe.structure(live.route)} instead of {live.expected_structure()}",
                inst.data(),
            )
            if not compare(ctx, inst, live.route, live.rows(), how, live.ops):
                return
        live.route.flush()
        compare(ctx, inst, live.route, live.rows(), "flush", live.ops)
        ctx.sample(dict(instance=inst.data(), edits=live.ops, stops=observe.route(live.route)["stops"]))
    else:
        order = gen.plan_order(rng, rng.sample(inst.trips, rng.randint(0, len(inst.trips))), rng.choice((0.0, 0.6, 0.9)))
        if kind == "direct":
            merge = rng.random() < 0.5
            shape = gen.spec_route(vehicle, order, merge, rng)
            requested = None
            if rng.random() < 0.5:
                requested = [
                    r["start"] + rng.choice((-3.0, 0.0, 2.0, 30.0)) if rng.random() < 0.4 else None
                    for r in oracle.simulate(inst, shape)
                ]
            route = build.direct(jit, built, vehicle, shape, requested)
            ctx.count("direct")
            compare(ctx, inst, route, oracle.simulate(inst, shape, requested), "direct", order and len(order))
        else:
            route = build.append(jit, built, rng, vehicle, order, build.touch if rng.random() < 0.6 else None)
            shape = gen.spec_route(vehicle, order)
            ctx.check(
                observe.structure(route)
                == (vehicle.id, tuple((tuple(s["pos"]), tuple(s["p"]), tuple(s["d"])) for s in shape["stops"])),
                "structure:appended",
                lambda: f"{observe.structure(route)}",
                inst.data(),
            )
            compare(ctx, inst, route, oracle.simulate(inst, shape), "appended")
