"""Runs in one process are independent: what was solved before or is being solved elsewhere does not matter."""
import contextlib
import json
import os
import pathlib
import random
import re
import signal
import sys
import tempfile
import threading
import time

from .. import build, core, files, gen, hashing, observe, workload
from ..inst import Built

CASES = dict(quick=700, thorough=12000)
REQUIRED = {"fresh_processes": 200, "parallel": 250, "threads": 700, "switches": 30000, "free_running": 60, "scheduled": 150, "shared": 60,
            "pipelines": 120, "one_starting_point": 20, "served": 500, "files_written": 120, "searches": 6, "exact": 4, "line_by_line": 60}
RULE = (
    "case = several runs (solvers of every kind on generated problems, whole pipelines from a file to a file, edits of a route), each "
    "first alone and then together with the others in threads, either one at a time with a switch at every library call of interest "
    "(seeded scheduler) or freely with a tiny switch interval, on separate problems, one shared problem or one shared starting point; or "
    "one run in a fresh process against the same run in a process that has solved hundreds; non-trivial = at least one request served; "
    "distinct = by what the runs returned and by the order in which the threads were switched"
)
KINDS = ("pipeline", "solver", "solver", "solver", "edits", "sampling")
PATIENCE = 240.0  # seconds without an answer of threads that need a few
CPU_LIMIT = 120.0


class Quiet:
    """A context for scenario construction that only keeps what is needed."""

    def __init__(self, jit):
        self.jit = jit

    def count(self, *args):
        pass


def said(result):
    """All that a result says, but for its name and the time it took."""
    jit = sys.modules["jinete"]
    text = jit.ColumnarStorerFormatter(result=result).format()
    text = re.sub(r'UUID: "[^"]*"', "", re.sub(r'Computation time: "[^"]*"', "", text))
    return dict(
        routes=observe.routes(result.routes),
        value=list(result.optimization_value),
        feasible=result.feasible,
        coverage=result.coverage_rate,
        timetable=[observe.route(r, True) for r in sorted(result.routes, key=lambda r: r.vehicle.identifier)],
        report=sorted(re.sub(r"\s+", " ", x) for x in text.split("\n")),
        rides=sorted(jit.HashCodeStorerFormatter(result=result).format().split("\n")),
        job=observe.job_snapshot_plain(result.job),
        fleet=observe.fleet_snapshot_plain(result.fleet),
    )


def plain(x):
    return json.loads(json.dumps(x, default=repr))


# ---- the runs: prepare(salt) builds everything, the function it returns runs and says what came out


def pipeline(jit, rng, folder):
    rows, inst = files.cordeau(rng, n=rng.choice((1, 2, 4))) if rng.random() < 0.5 else files.hashcode(rng, n=rng.choice((1, 3, 6)))
    formatter = jit.CordeauLaporteLoaderFormatter if len(rows[0]) == 5 else jit.HashCodeLoaderFormatter
    name = f"{rng.getrandbits(64):x}"
    source, target = pathlib.Path(folder) / f"{name}.in", pathlib.Path(folder) / f"{name}.out"
    source.write_text(files.text(rng, rows))
    options = workload.pick_insertion(jit, rng)

    def run():
        result = jit.Solver(
            algorithm=jit.InsertionAlgorithm,
            algorithm_kwargs=options,
            loader=jit.FileLoader,
            loader_kwargs=dict(file_path=source, formatter_cls=formatter),
            storer=jit.FileStorer,
            storer_kwargs=dict(file_path=target, formatter_cls=jit.HashCodeStorerFormatter),
        ).solve()
        out = said(result)
        out["file"] = sorted(target.read_text().split("\n"))
        target.unlink()
        return out

    return run


def solver(jit, rng, folder, shared=None):
    if shared is not None:
        built, initial = shared
    else:
        inst, built, initial = None, None, None
        if rng.random() < 0.4:
            inst, built, initial = workload.planned(Quiet(jit), rng)
        if built is None:
            inst, built = workload.make(Quiet(jit), rng, n=rng.choice((2, 3, 4, 5)), m=rng.choice((1, 2, 3)))
    kinds = workload.ALL if initial is None else workload.FROM_PLAN
    # shared places, vehicles and requests have their hashes already
    for x in list(built.trips.values()) + list(built.fleet.vehicles):
        hash(x)
    algorithm = workload.scenario(jit, built, rng, kinds, initial)[2]

    def run():
        return said(algorithm.optimize())

    return run


def edits(jit, rng, folder):
    from .. import model

    inst = gen.instance(rng, n=rng.choice((2, 4, 6)), m=1)
    live = model.Live(jit, Built(jit, inst), rng, inst.vehicles[0])

    def run():
        out = []
        for _ in range(12):
            live.step(("append", "append", "remove", "delay", "waypoint"))
            build.touch(live.route) if rng.random() < 0.5 else None
            live.route.flush()
            out.append((observe.route(live.route, True), live.route.feasible, live.route.transit_time))
        return out

    return run


def sampling(jit, rng, folder):
    """A strategy that looks at some pairs of positions only, asked more than once."""
    inst = gen.loose(rng, rng.choice((6, 8)), 1)
    built = Built(jit, inst)
    vehicle = inst.vehicles[0]
    route = build.direct(jit, built, vehicle, gen.spec_route(vehicle, gen.plan_order(rng, inst.trips[1:], 0.5)))
    pending = built.trips[inst.trips[0].id]
    seed, count = rng.randrange(1000), rng.choice((2, 5))

    def run():
        strategy = jit.SamplingInsertionStrategy(seed=seed)
        return [sorted(repr(observe.route(r)["stops"]) for r in strategy.compute(route, pending, count)) for _ in range(4)]

    return run


_steps = threading.local()


def once(jit):
    if "once" not in _live:

        class Once(jit.ReallocationLocalSearchStrategy):
            """Idle after one step."""

            def improve(self, *args, **kwargs):
                _steps.left -= 1
                return super().improve(*args, **kwargs) if _steps.left >= 0 else self.result

        _live["once"] = Once
    return _live["once"]


def search(jit, rng, folder):
    """One step of a local search on a route with more pairs of positions than it looks at."""
    inst = gen.loose(rng, rng.choice((10, 11)), 2, "DialARide")
    built = Built(jit, inst)
    shares = (inst.trips[:1], inst.trips[1:])
    orders = [gen.plan_order(rng, s, 0.6) for s in shares]
    routes = {build.direct(jit, built, v, gen.spec_route(v, o)) for v, o in zip(inst.vehicles, orders)}
    plan = jit.Result(jit.NaiveAlgorithm(fleet=built.fleet, job=built.job), jit.Planning(routes), 0.0)
    algorithm = jit.LocalSearchAlgorithm(
        fleet=built.fleet, job=built.job, initial=plan, seed=rng.randrange(1000), strategy_cls=once(jit)
    )

    def run():
        _steps.left = 1
        return said(algorithm.optimize())

    return run


def exact(jit, rng, folder):
    """The exact method, which may also find that there is no plan."""
    import pulp

    from . import c18

    inst = c18.random_instance(rng)
    while len(inst.trips) > 2:
        inst = c18.random_instance(rng)
    built = Built(jit, inst)

    def run():
        try:
            return said(jit.MilpAlgorithm(fleet=built.fleet, job=built.job, solver=pulp.PULP_CBC_CMD(msg=0)).optimize())
        except Exception as exc:
            return type(exc).__name__

    return run


def prepare(jit, kind, salt, folder, shared=None):
    hashing.reseed((salt, "made"))
    rng = random.Random(salt)
    run = dict(pipeline=pipeline, solver=solver, edits=edits, sampling=sampling, search=search, exact=exact)[kind]
    run = run(jit, rng, folder, shared) if shared is not None else run(jit, rng, folder)

    def go():
        hashing.reseed((salt, "run"))
        return plain(run())

    return go


# ---- a process that stays as it was when it started, and lends a copy of itself for each run


class Zygote:
    def __init__(self, jit, folder):
        self.r, child_w = os.pipe()
        child_r, self.w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.r), os.close(self.w)
                self.serve(jit, os.fdopen(child_r), child_w, folder)
            finally:
                os._exit(0)
        os.close(child_r), os.close(child_w)
        self.answers = os.fdopen(self.r)

    @staticmethod
    def serve(jit, requests, out, folder):
        for line in requests:
            pid = os.fork()
            if pid == 0:
                signal.setitimer(signal.ITIMER_VIRTUAL, 100)
                try:
                    kind, salt = json.loads(line)
                    answer = ["ok", prepare(jit, kind, salt, folder)()]
                except BaseException as exc:
                    answer = ["failed", f"{type(exc).__name__}: {exc}"[:500]]
                data = (json.dumps(answer) + "\n").encode()
                while data:
                    data = data[os.write(out, data):]
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status:
                os.write(out, b'["died"]\n')

    def ask(self, kind, salt):
        os.write(self.w, (json.dumps([kind, salt]) + "\n").encode())
        line = self.answers.readline()
        if not line:
            raise RuntimeError("the fresh process is gone")
        return json.loads(line)

    def close(self):
        os.close(self.w)
        os.waitpid(self.pid, 0)


_live = {}


def start(ctx):
    _live["folder"] = tempfile.TemporaryDirectory(prefix="vp-c24-")
    _live["zygote"] = Zygote(ctx.jit, _live["folder"].name)


def finish(ctx):
    _live["zygote"].close()
    _live["folder"].cleanup()


# ---- threads


class Scheduler:
    """(Gives up, and lets all run, when the one that should run waits for another.) Lets one thread run at a time and hands over, at random, whenever one calls the library at a place of interest."""

    def __init__(self, rng, n, rate):
        self.rng, self.rate = rng, rate
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.me = threading.local()
        self.log = []
        self.stuck = False

    def wait(self, k):
        seen = None
        while not self.stuck and not self.go[k].acquire(timeout=15):
            if seen == len(self.log):
                self.stuck = True
            seen = len(self.log)

    def pick(self):
        if self.alive:
            k = self.rng.choice(sorted(self.alive))
            self.log.append(k)
            self.go[k].release()

    def begin(self, k):
        self.me.k = k
        self.wait(k)

    def point(self, sure=False):
        k = getattr(self.me, "k", None)
        if k is not None and not self.stuck and (sure or self.rng.random() < self.rate):
            if len(self.log) > 1500:
                self.rate = 0.005  # switching costs more than what is switched between
            self.pick()
            self.wait(k)

    def end(self, k):
        self.me.k = None
        self.alive.discard(k)
        self.pick()


class Free:
    """Lets all run at once, with short naps at places of interest."""

    def __init__(self):
        self.log = []
        self.me = threading.local()
        self.barrier = None

    def begin(self, k):
        self.me.k = k
        self.barrier.wait()

    def point(self, sure=False):
        k = getattr(self.me, "k", None)
        if k is not None:
            self.log.append(k)

    def end(self, k):
        self.me.k = None


POINTS = (
    ("Route", "clone"), ("Route", "insert_stop_at"), ("Route", "remove_stop_at"), ("Route", "remove_trip"), ("Route", "flush"),
    ("InsertionStrategy", "compute"), ("LocalSearchStrategy", "improve"), ("Algorithm", "optimize"), ("Position", "time_to"),
    ("Objective", "optimization_function"), ("RouteCriterion", "nbest"), ("Surface", "get_or_create_position"), ("Stop", "flush"),
    ("PlannedTrip", "flush"),
)
FILES = ((pathlib.Path, "open"), (pathlib.Path, "replace"), (pathlib.Path, "rename"), (os, "replace"), (os, "rename"))


@contextlib.contextmanager
def every_line(point):
    """Calls point at every line of the library that any thread executes."""
    monitoring = sys.monitoring
    tool = monitoring.PROFILER_ID
    monitoring.use_tool_id(tool, "vp")

    def line(code, number):
        if not code.co_filename.startswith(core.LIB):
            return monitoring.DISABLE
        point()

    monitoring.register_callback(tool, monitoring.events.LINE, line)
    monitoring.set_events(tool, monitoring.events.LINE)
    try:
        yield
    finally:
        monitoring.set_events(tool, 0)
        monitoring.register_callback(tool, monitoring.events.LINE, None)
        monitoring.free_tool_id(tool)


@contextlib.contextmanager
def switching(jit, point, lines):
    kept = []
    for cls, name in tuple((getattr(jit, cls), name) for cls, name in (() if lines else POINTS)) + FILES:
        original = cls.__dict__.get(name)
        if not callable(original):
            continue

        def wrapper(*args, _original=original, _sure=(cls, name) in FILES, **kwargs):
            point(_sure)
            return _original(*args, **kwargs)

        kept.append((cls, name, original))
        setattr(cls, name, wrapper)
    try:
        with every_line(point) if lines else contextlib.nullcontext():
            yield
    finally:
        for cls, name, original in kept:
            setattr(cls, name, original)


def together(jit, runs, control, lines):
    """Runs all in threads; what each returned (or how it failed)."""
    out = [None] * len(runs)

    def work(k):
        control.begin(k)
        try:
            out[k] = ["ok", runs[k]()]
        except BaseException as exc:
            out[k] = ["failed", f"{type(exc).__name__}: {exc}"[:500]]
        finally:
            control.end(k)

    end = time.monotonic() + PATIENCE
    threads = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(len(runs))]
    if isinstance(control, Free):
        control.barrier = threading.Barrier(len(runs))
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5 if isinstance(control, Free) else interval)
    try:
        with switching(jit, control.point, lines):
            for t in threads:
                t.start()
            if isinstance(control, Scheduler):
                control.pick()
            for t in threads:
                t.join(max(0.0, end - time.monotonic()))
    finally:
        sys.setswitchinterval(interval)
    return [x or ["failed", f"no answer in {PATIENCE} s"] for x in out]


def served(answer):
    return isinstance(answer, dict) and any(s["p"] for r in answer["routes"] for s in r["stops"])


def alone(ctx, jit, kind, salt, shared):
    """The answer of a run by itself, asked twice (None: not even that is the same, which is judged elsewhere)."""
    first = prepare(jit, kind, salt, _live["folder"].name, shared)()
    second = prepare(jit, kind, salt, _live["folder"].name, shared)()
    if second != first:
        ctx.count("unrepeatable")
        if shared is None:
            there, again = (_live["zygote"].ask(kind, salt) for _ in range(2))
            # fresh processes agree with each other: it is what this process did before that makes the difference
            ctx.check(
                there != again or there[0] != "ok",
                f"differs-from-a-fresh-process:{kind}",
                lambda: f"first and second time here: {difference(first, second)}; in fresh processes always {str(there[1])[:400]}",
            )
        return None
    ctx.count("served", served(first))
    return first


def difference(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: (str(a[k])[:400], str(b.get(k))[:400]) for k in a if a[k] != b.get(k)}
    return str(a)[:600], str(b)[:600]


def fresh(ctx, rng):
    kind, salt = rng.choice(KINDS), f"{rng.getrandbits(64):x}"
    ctx.note(dict(kind="fresh-process", run=kind))
    here = alone(ctx, ctx.jit, kind, salt, None)
    if here is None:
        return
    there = _live["zygote"].ask(kind, salt)
    ctx.count("fresh_processes")
    ctx.check(
        there == ["ok", here],
        f"differs-from-a-fresh-process:{kind}",
        lambda: f"here and there: {difference(here, there[1]) if there[0] == 'ok' else there}",
    )
    if served(here):
        ctx.sig(here["routes"])


def parallel(ctx, rng):
    jit = ctx.jit
    k = rng.choice((2, 3, 3, 4))
    shared = None
    kinds = [rng.choice(KINDS) for _ in range(k)]
    draw = rng.random()
    how, short = "separate", False
    if draw > 0.96:
        kinds = ["search"] * 2
        k = 2
        ctx.count("searches")
    elif draw > 0.93:
        kinds = ["exact"] * rng.choice((1, k)) + ["solver"]
        k = len(kinds)
        ctx.count("exact")
    elif draw > 0.82:
        kinds = ["pipeline"] * k
        short = True
    elif draw < 0.3:
        how, kinds = "one-problem", ["solver"] * k
        hashing.reseed(rng.random())
        inst, built = workload.make(ctx, rng, n=rng.choice((2, 3, 5)), m=rng.choice((1, 2, 3)))
        shared = (built, None)
        if draw < 0.12:
            inst, built, initial = workload.planned(ctx, rng)
            if initial is not None:
                shared = (built, initial)
                how = "one-starting-point"
                ctx.count("one_starting_point")
                for r in initial.routes:
                    hash(r)
                    for s in r.stops:
                        hash(s)
                        for pt in s.planned_trips:
                            hash(pt)
            else:
                shared = (built, None)
        ctx.count("shared")
    salts = [f"{rng.getrandbits(64):x}" for _ in range(k)]
    ctx.note(dict(kind="parallel", how=how, runs=kinds))
    answers = [alone(ctx, jit, kind, salt, shared) for kind, salt in zip(kinds, salts)]
    if None in answers:
        return
    runs = [prepare(jit, kind, salt, _live["folder"].name, shared) for kind, salt in zip(kinds, salts)]
    if rng.random() < 0.3:
        lines = False
        control = Free()
        ctx.count("free_running")
    else:
        lines = rng.random() < (0.6 if short else 0.4)
        control = Scheduler(random.Random(rng.random()), k, rng.choice(((0.5,) if short else (0.002, 0.02, 0.2)) if lines else (0.02, 0.2, 1.0)))
        ctx.count("scheduled")
        ctx.count("line_by_line", lines)
    got = together(jit, runs, control, lines)
    ctx.count("parallel")
    ctx.count("threads", k)
    ctx.count("pipelines", kinds.count("pipeline"))
    ctx.count("files_written", kinds.count("pipeline"))
    switches = sum(1 for a, b in zip(control.log, control.log[1:]) if a != b)
    ctx.count("switches", switches)
    for n, (kind, have, want) in enumerate(zip(kinds, got, answers)):
        ctx.check(
            have == ["ok", want],
            f"differs-from-alone:{how}:{kind}",
            lambda: f"{k} runs, {switches} switches; alone and together: {difference(want, have[1]) if have[0] == 'ok' else have}",
        )
    if any(map(served, answers)):
        ctx.sig(answers[0], control.log[:200])
    ctx.sample(dict(how=how, runs=kinds, switches=switches))


def case(ctx, i, rng):
    if rng.random() < 0.4:
        fresh(ctx, rng)
    else:
        parallel(ctx, rng)
