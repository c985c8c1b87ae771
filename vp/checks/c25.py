"""A local search ends where no further move of its kind would improve the plan."""
from .. import build, gen, observe, oracle, workload
from ..inst import Built

CASES = dict(quick=1500, thorough=30000)
REQUIRED = {"ends": 900, "moves": 15000, "feasible_moves": 2000, "improved_before": 180, "gathered": 120}
RULE = (
    "case = local searches (alone, inside sequences or GRASP) from built and hand-made plans; each plan a search ended with is "
    "taken apart and every move of the search's kind is made on a copy of it and judged from scratch; non-trivial = the search "
    "improved its start and moves that meet all constraints remain; distinct = by final value and number of such moves"
)
MARGIN = 1e-5


def rearranged(route, order):
    """A copy of the route that visits its stops in another order (requested starts kept)."""
    new = route.clone()
    stops = [new.stops[k] for k in order]
    for a, b in zip(stops, stops[1:]):
        b.previous = a
    new.stops[:] = stops
    new.flush()
    return new


def fits(inst, route):
    """The route meets all constraints, comfortably also the windows that the library derives from them."""
    seen = observe.route(route)
    rows = oracle.simulate(inst, seen, [s["start"] for s in seen["stops"]])
    if any(not x["e"] - oracle.TOL <= x["start"] <= x["l"] + oracle.TOL for x in rows):
        return False
    return oracle.verdict(oracle.violations(inst, seen)) == "ok"


def worth(inst, *routes):
    return oracle.objective_value(inst, inst.objective, [observe.route(r) for r in routes])


def better(new, old):
    for x, y in zip(new, old):
        if abs(x - y) <= MARGIN * max(1.0, abs(x), abs(y)):
            continue
        return x > y
    return False


def sound(shape):
    """Every request is picked up before it is delivered."""
    aboard = set()
    for s in shape["stops"]:
        if not aboard.issuperset(s["d"]):
            return False
        aboard |= set(s["p"])
        aboard -= set(s["d"])
    return True


def within(ctx, inst, route, stretches):
    """The improving reversals among the given stretches of a route."""
    n = len(route.stops)
    base = worth(inst, route)
    seen = observe.route(route)
    for i, m in stretches:
        order = list(range(i)) + list(range(m, i - 1, -1)) + list(range(m + 1, n))
        ctx.count("moves")
        if not sound(dict(stops=[seen["stops"][k] for k in order])):
            continue
        new = rearranged(route, order)
        if not fits(inst, new):
            continue
        ctx.count("feasible_moves")
        value = worth(inst, new)
        if better(value, base):
            yield f"{route.vehicle.identifier}: stops {i} to {m} of {n} reversed, {base} -> {value}"


def two_opt(ctx, inst, routes):
    for route in routes:
        n = len(route.stops)
        yield from within(ctx, inst, route, [(i, m) for i in range(1, n - 1) for m in range(i + 2, n - 1)])


def one_shift(ctx, inst, routes):
    for route in routes:
        n = len(route.stops)
        yield from within(ctx, inst, route, [(i, i + 1) for i in range(1, n - 2)])


def departures(route):
    """With a new first leg, the departure is decided again: as early as possible, or later by the wait there."""
    route.first_stop.starting_time = None
    route.flush()
    yield
    wait = route.stops[1].waiting_time
    if wait > 0:
        route.first_stop.starting_time = route.first_stop.starting_time + wait
        route.flush()
        yield


def reallocation(ctx, inst, routes):
    jit = ctx.jit
    if inst.objective != "DialARide":
        return
    for origin in routes:
        for trip in list(origin.trips):
            left = origin.clone()
            first = any(t is trip for t in left.stops[1].trips)
            left.remove_trip(trip)
            left.flush()
            if not (all([fits(inst, left) for _ in departures(left)]) if first else fits(inst, left)):
                continue
            for other in routes:
                n = len(other.stops)
                if other is origin or n * (n - 1) // 2 > 128:
                    continue
                base = worth(inst, origin, other)
                for i in range(n - 1):
                    for j in range(i + 1, n):
                        ctx.count("moves")
                        new = other.clone()
                        pickup = jit.Stop(new.vehicle, trip.origin_position, new.stops[i])
                        delivery = jit.Stop(new.vehicle, trip.destination_position, pickup if j == i + 1 else new.stops[j - 1])
                        jit.PlannedTrip(new.vehicle, trip, pickup, delivery)
                        stops = new.stops[: i + 1] + [pickup] + new.stops[i + 1 : j] + [delivery] + new.stops[j:]
                        for a, b in zip(stops, stops[1:]):
                            b.previous = a
                        new.stops[:] = stops
                        new.flush()
                        if not (any([fits(inst, new) for _ in departures(new)]) if i == 0 else fits(inst, new)):
                            continue
                        ctx.count("feasible_moves")
                        value = worth(inst, left, new)
                        if better(value, base):
                            yield (
                                f"{trip.identifier} from {origin.vehicle.identifier} to {other.vehicle.identifier} at {i}, {j}: "
                                f"{base} -> {value}"
                            )


KINDS = {"TwoOPTLocalSearchStrategy": two_opt, "OneShiftLocalSearchStrategy": one_shift, "ReallocationLocalSearchStrategy": reallocation}


def judge(ctx, inst, result, strategy, before, where):
    ctx.count("ends")
    ctx.count(f"ends:{strategy}")
    routes = sorted(result.routes, key=lambda r: r.vehicle.identifier)
    left = ctx.counts.get("feasible_moves", 0)
    found = []
    for move in KINDS[strategy](ctx, inst, routes):
        found.append(move)
        if len(found) > 3:
            break
    after = oracle.objective_value(inst, inst.objective, observe.routes(result.routes))
    if after != before:
        ctx.count("improved_before")
        left = ctx.counts.get("feasible_moves", 0) - left
        if left:
            ctx.sig(strategy, after, left)
    ctx.check(not found, f"improvable:{strategy}", lambda: f"[{where}] {found}", inst.data())


def gathered(ctx, rng):
    """One vehicle that takes everybody aboard before it delivers anybody: nearly every reversal keeps the order of pickups
    and deliveries, and one or two late windows or ride limits rule out some of them."""
    inst = gen.loose(rng, rng.choice((3, 4, 5, 6)), 1, "DialARide")
    vehicle = inst.vehicles[0]
    off, on = list(inst.trips), list(inst.trips)
    rng.shuffle(off)
    rng.shuffle(on)
    order = [("p", t) for t in off] + [("d", t) for t in on]
    shape = gen.spec_route(vehicle, order)
    rows = oracle.simulate(inst, shape)
    for _ in range(rng.choice((1, 1, 2))):
        k = rng.randrange(len(order))
        kind, t = order[k]
        margin = 1e-5 + rng.choice((0.0, 0.5, 2.0, 5.0))
        if kind == "d" and rng.random() < 0.5:
            a = next(j for j, (w, x) in enumerate(order) if w == "p" and x is t)
            t.timeout = round(rows[k + 1]["start"] - rows[a + 1]["departure"] + margin, 6)
        else:
            (t.o if kind == "p" else t.d).l = round(rows[k + 1]["start"] + margin, 6)
    built = Built(ctx.jit, inst)
    route = build.direct(ctx.jit, built, vehicle, shape)
    if not fits(inst, route):
        ctx.count("spoilt_plans")
        return inst, built, None
    ctx.count("gathered")
    jit = ctx.jit
    return inst, built, jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), jit.Planning({route}), 0.0)


def case(ctx, i, rng):
    jit = ctx.jit
    draw = rng.random()
    initial = None
    if draw < 0.2:
        inst, built, initial = gathered(ctx, rng)
        if initial is None:
            return
    elif draw < 0.65:
        inst, built, initial = workload.planned(ctx, rng, n=rng.choice((2, 3, 4, 5, 6)))
        if initial is None:
            return
    elif draw < 0.78:
        inst = gen.loose(rng, rng.choice((3, 4, 6)), rng.choice((1, 2, 3)), "DialARide")
        built = Built(jit, inst)
    else:
        inst, built = workload.make(ctx, rng, m=rng.choice((1, 2, 2, 3)), objective="DialARide" if rng.random() < 0.7 else None)
    kind = rng.choice(("local-search",) * 5 + ("sequential", "grasp"))
    name, desc, algorithm = workload.scenario(jit, built, rng, (kind,), initial)
    ctx.note(dict(kind=name, configuration=desc, tags=inst.tags))
    ends = []

    def enter(node):
        if isinstance(node.initial, jit.Result):
            node.before = oracle.objective_value(inst, inst.objective, observe.routes(node.initial.routes))

    def leave(node):
        if type(node.algorithm) is jit.LocalSearchAlgorithm:
            ends.append((node.result, node.algorithm.strategy_cls.__name__, node.before))

    with workload.traced(jit, enter, leave):
        algorithm.optimize()
    for result, strategy, before in ends[:4]:
        judge(ctx, inst, result, strategy, before, name)
    ctx.sample(dict(instance=inst.data(), kind=name, configuration=desc))
