"""What a loader delivers, compared with what the file says."""
import pathlib
import tempfile

from .. import build, files, gen, observe, oracle, workload
from ..oracle import close


def attributes(ctx, inst, loaded, where):
    """Every number of the instance, as the library reports it."""
    jit = ctx.jit
    ctx.check(
        sorted(loaded.vehicles) == sorted(v.id for v in inst.vehicles) and len(loaded.fleet.vehicles) == len(inst.vehicles),
        f"{where}:vehicles",
        lambda: f"{sorted(loaded.vehicles)}",
    )
    ctx.check(
        sorted(loaded.trips) == sorted(t.id for t in inst.trips) and len(loaded.job.trips) == len(inst.trips),
        f"{where}:requests",
        lambda: f"{sorted(loaded.trips)} instead of {[t.id for t in inst.trips]}",
    )
    ctx.check(type(loaded.job.objective).__name__ == inst.objective + "Objective", f"{where}:objective", str(loaded.job.objective))
    errs = []

    def cmp(what, got, want):
        ctx.count("numbers")
        if not close(got, want, 1e-9):
            errs.append((what, got, want))

    for v in inst.vehicles:
        o = loaded.vehicles.get(v.id)
        if o is None:
            continue
        cmp("vehicle-capacity", o.capacity, v.cap)
        cmp("vehicle-limit", o.timeout, v.timeout)
        for name, x in (("origin", o.origin), ("destination", o.destination)):
            cmp(f"depot-{name}-x", x.position.coordinates[0], v.o.x)
            cmp(f"depot-{name}-y", x.position.coordinates[1], v.o.y)
        cmp("shift-start", o.origin.earliest, v.o.e)
        cmp("shift-end", o.destination.latest, v.end.l)
    for t in inst.trips:
        o = loaded.trips.get(t.id)
        if o is None:
            continue
        for name, got, want in (("pickup", o.origin, t.o), ("delivery", o.destination, t.d)):
            cmp(f"{name}-x", got.position.coordinates[0], want.x)
            cmp(f"{name}-y", got.position.coordinates[1], want.y)
            cmp(f"{name}-earliest", got.earliest, want.e)
            cmp(f"{name}-latest", got.latest, want.l)
            cmp(f"{name}-duration", got.duration, want.d)
        cmp("load", o.capacity, t.cap)
        cmp("ride-limit", o.timeout, t.timeout)
        cmp("bonus", o.on_time_bonus, t.bonus)
        w = oracle.trip_windows(inst, t)
        for name, got, want in zip(
            ("pickup-from", "pickup-until", "delivery-from", "delivery-until"),
            (o.origin_earliest, o.origin_latest, o.destination_earliest, o.destination_latest),
            w,
        ):
            cmp(f"window:{name}", got, want)
        cmp("direct-distance", o.distance, oracle.dist(inst.metric, t.o.pos, t.d.pos))
    kinds = sorted({e[0] for e in errs})
    ctx.check(not errs, f"{where}:{'+'.join(kinds[:3])}", lambda: f"{errs[:4]}", inst.data())
    return not errs


def behaviour(ctx, rng, inst, loaded, where):
    """Routes over the loaded objects are judged as the file's instance demands."""
    for _ in range(4):
        if not inst.trips:
            return
        vehicle = rng.choice(inst.vehicles)
        few = rng.sample(inst.trips, rng.randint(0, min(4, len(inst.trips))))
        if rng.random() < 0.6:
            few.sort(key=lambda t: oracle.trip_windows(inst, t)[0])
            order = [(k, t) for t in few for k in "pd"]
        else:
            order = gen.plan_order(rng, few, 0.6)
        route = build.direct(ctx.jit, loaded, vehicle, gen.spec_route(vehicle, order))
        obs = observe.route(route)
        rows = oracle.simulate(inst, obs)
        ctx.count("routes")
        ctx.check(
            all(close(s["start"], r["start"]) for s, r in zip(obs["stops"], rows)),
            f"{where}:route-times",
            lambda: f"{[s['start'] for s in obs['stops']]} instead of {[r['start'] for r in rows]}",
            inst.data(),
        )
        v = oracle.verdict(oracle.violations(inst, obs))
        if v != "grey":
            ctx.count(f"routes_{v}")
            ctx.check(
                route.feasible == (v == "ok"),
                f"{where}:route-feasibility",
                lambda: f"{route.feasible} but {oracle.broken(oracle.violations(inst, obs))}: {obs}",
                inst.data(),
            )
            want = oracle.objective_value(inst, inst.objective, [obs])
            got = loaded.job.objective.optimization_function(route)
            ctx.check(all(close(a, b) for a, b in zip(got, want)), f"{where}:objective-value", lambda: f"{got} {want}", inst.data())


def shipped(ctx, rng, family, formatter, where):
    """One of the benchmark files that come with the library."""
    found = files.dataset(rng, family)
    if found is None:
        return
    path, rows, inst = found
    ctx.count("shipped_files")
    loader = ctx.jit.FileLoader(path, formatter_cls=getattr(ctx.jit, formatter))
    loaded = files.Loaded(ctx.jit, inst, loader)
    ctx.sig(path.name)
    if attributes(ctx, inst, loaded, where):
        behaviour(ctx, rng, inst, loaded, where)


def case(ctx, rng, writer, formatter, where, family):
    jit = ctx.jit
    if rng.random() < 0.05:
        shipped(ctx, rng, family, formatter, where)
        return
    rows, inst = writer(rng)
    body = files.text(rng, rows)
    with tempfile.TemporaryDirectory(prefix="vp-load-") as tmp:
        path = pathlib.Path(tmp) / rng.choice(("a.txt", "b", "instance 1.in"))
        path.write_bytes(body.encode())
        ctx.count("files")
        if formatter == "CordeauLaporteLoaderFormatter" and rng.random() < 0.5:
            args = {}
        else:
            args = dict(formatter_cls=getattr(jit, formatter))
        loader = jit.FileLoader(rng.choice((str, pathlib.Path))(path), **args)
        order = ["surface", "fleet", "job"]
        rng.shuffle(order)
        loaded = files.Loaded(jit, inst, loader, order)
        again = files.Loaded(jit, inst, loader)
        ctx.check(
            again.job is loaded.job and again.fleet is loaded.fleet and again.surface is loaded.surface,
            f"{where}:loaded-once",
            "asking twice gives different objects",
        )
        second = files.Loaded(jit, inst, jit.FileLoader(path, **args))
    ctx.sig(body)
    ctx.sample(dict(file=body[:600]))
    if attributes(ctx, inst, loaded, where):
        attributes(ctx, inst, second, where)
        behaviour(ctx, rng, inst, loaded, where)
    # straight from numbers, without a file
    formatter_obj = getattr(jit, formatter)([[float(x) for x in r] for r in rows])
    surface = formatter_obj.surface()

    class Direct:
        pass

    d = Direct()
    d.surface, d.fleet, d.job = surface, formatter_obj.fleet(surface), formatter_obj.job(surface)
    attributes(ctx, inst, files.Loaded(jit, inst, d), where)
