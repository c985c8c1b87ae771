"""The solving pipeline: one load, one optimisation, one storage of exactly what was solved, configured as requested."""
import contextlib
import functools
import io
import os
import pathlib
import random
import re
import tempfile
import time

from .. import files, gen, observe, oracle, report, workload
from ..inst import Built
from ..oracle import close

CASES = dict(quick=4000, thorough=40000)
REQUIRED = {"runs": 900, "stored": 250, "sets": 150, "failures": 200, "reruns": 80, "defaults": 60, "silent": 60,
            "nested_options": 150, "kept_files": 20, "static": 100,
            "unwritable_targets": 40, "timed": 20, "odd_results": 100}
RULE = (
    "case = one pipeline run over a generated benchmark file with recording loaders, algorithms, storers and dispatchers "
    "(options, several storers at once, defaults, a fault injected in one of the phases, a second run after the file changed); "
    "the event log of the run is compared with load -> optimise -> store; non-trivial = at least one request served; distinct = "
    "by the file, the configuration and the event log"
)


class Boom(RuntimeError):
    """The injected fault."""


KINDS = (
    OSError, OSError, FileNotFoundError, PermissionError, KeyError, IndexError, ValueError, TypeError, AttributeError,
    NotImplementedError, AssertionError, ZeroDivisionError, EOFError, MemoryError, RecursionError, ImportError, UnicodeError,
)
BOOMS = (Boom,) + tuple(type(f"Boom{kind.__name__}", (kind,), {}) for kind in KINDS)


class Log:
    def __init__(self):
        self.events = []

    def add(self, *what):
        self.events.append(what)


def names(log):
    return [e[0] for e in log.events]


def components(jit, log, fault, formatter, boom, oddity=None):
    """Recording stand-ins for every phase; all the work is still done by the library's classes."""

    class Loader(jit.FileLoader):
        def __init__(self, *args, **kwargs):
            log.add("loader", dict(kwargs))
            super().__init__(*args, **kwargs)
            if fault == "load":
                raise boom("injected")

    class Algorithm(jit.InsertionAlgorithm):
        def __init__(self, *args, **kwargs):
            log.add("algorithm", dict(kwargs))
            super().__init__(*args, **kwargs)

        def optimize(self):
            log.add("optimize", self)
            if fault == "optimize":
                raise boom("injected")
            result = super().optimize()
            log.add("optimized", self, result)
            return result

        def _optimize(self):
            if oddity == "empty":
                return jit.Planning(set())
            if oddity == "infeasible":
                return jit.Planning({everything(jit, self.fleet, self.job)})
            return super()._optimize()

    class First(jit.Storer):
        def __init__(self, marker="first", *args, **kwargs):
            log.add("storer", marker, dict(kwargs))
            super().__init__(*args, **kwargs)
            self.marker = marker

        def store(self):
            log.add("store", self.marker, self.result, self._formatted)
            if fault == "store":
                raise boom("injected")

    class Second(First):
        def __init__(self, *args, **kwargs):
            super().__init__("second", *args, **kwargs)

    class Dispatcher(jit.StaticDispatcher):
        def __init__(self, *args, note=None, **kwargs):
            log.add("dispatcher", note)
            super().__init__(*args, **kwargs)

    class Formatter(jit.ColumnarStorerFormatter):
        def format(self):
            log.add("format")
            if fault == "format":
                raise boom("injected")
            return super().format()

    return Loader, Algorithm, First, Second, Dispatcher, Formatter


def instance(rng):
    if rng.random() < 0.5:
        rows, inst = files.cordeau(rng, n=rng.choice((1, 2, 3, 5)))
        return rows, inst, "CordeauLaporteLoaderFormatter"
    rows, inst = files.hashcode(rng, n=rng.choice((0, 1, 2, 4, 6)))
    return rows, inst, "HashCodeLoaderFormatter"


def sound(ctx, inst, result, where):
    """The result is a solution of the file that was to be solved."""
    ctx.check(
        sorted(t.identifier for t in result.job.trips) == sorted(t.id for t in inst.trips)
        and sorted(v.identifier for v in result.fleet.vehicles) == sorted(v.id for v in inst.vehicles),
        f"{where}:another-instance",
        lambda: f"{[t.identifier for t in result.job.trips]}",
    )
    rs = observe.routes(result.routes)
    ctx.check(not oracle.assignment_errors(inst, rs), f"{where}:assignment", lambda: f"{oracle.assignment_errors(inst, rs)}")
    bad = [oracle.broken(oracle.violations(inst, r)) for r in rs if any(s["p"] for s in r["stops"])]
    ctx.check(not any(bad), f"{where}:infeasible", lambda: f"{bad}", inst.data())
    return sum(len(s["p"]) for r in rs for s in r["stops"])


def everything(jit, fleet, job):
    """One vehicle serving everybody in a row, be it allowed or not."""
    route = jit.Route(sorted(fleet.vehicles, key=lambda v: v.identifier)[0])
    for trip in sorted(job.trips, key=lambda t: t.identifier):
        before = route.stops[-2] if len(route.stops) > 2 else route.first_stop
        pickup = jit.Stop(route.vehicle, trip.origin_position, before)
        delivery = jit.Stop(route.vehicle, trip.destination_position, pickup)
        route.append_planned_trip(jit.PlannedTrip(route.vehicle, trip, pickup, delivery))
    return route


def options(jit, rng):
    kw = workload.pick_insertion(jit, rng, rng.choice(("RankingInsertionIterator", "StatelessInsertionIterator")))
    if rng.random() < 0.3:
        kw = {}
    return kw


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return type(x)(snapshot(v) for v in x)
    return x


def timed(ctx, rng):
    """The computation time of a result is the time it took to compute."""
    jit = ctx.jit
    inst = gen.cordeau(rng, 2, 1)
    built = Built(jit, inst)
    spent = []

    class Slow(jit.NaiveAlgorithm):
        def _optimize(self):
            t = time.time()
            time.sleep(rng.choice((0.0, 0.03, 0.06)))
            planning = super()._optimize()
            spent.append(time.time() - t)
            return planning

    for _ in range(2):
        t = time.time()
        result = Slow(fleet=built.fleet, job=built.job).optimize()
        wall = time.time() - t
        ctx.count("timed")
        ctx.check(
            spent[-1] - 0.005 <= result.computation_time <= wall + 0.005,
            "computation-time",
            lambda: f"{result.computation_time}: solving took {spent[-1]}, the call {wall}",
        )


def recorded(ctx, i, rng, tmp):
    """A run with recording components in every place."""
    jit = ctx.jit
    rows, inst, formatter = instance(rng)
    path = tmp / "instance.txt"
    path.write_text(files.text(rng, rows))
    log = Log()
    fault = rng.choice((None, None, None, None, "load", "optimize", "store", "format", "target"))
    boom = rng.choice(BOOMS)
    # whatever an algorithm comes up with is what is to be stored
    oddity = rng.choice((None,) * 8 + ("empty", "infeasible"))
    if oddity:
        ctx.count("odd_results")
    Loader, Algorithm, First, Second, Dispatcher, Formatter = components(jit, log, fault, formatter, boom, oddity)
    loader_kw = dict(file_path=rng.choice((str, pathlib.Path))(path), formatter_cls=getattr(jit, formatter))
    algorithm_kw = options(jit, rng)
    several = rng.random() < 0.4 or fault == "target"
    ctx.note((fault, boom.__name__, several))
    out = tmp / "out.txt"
    old = "a previous solution\n"
    out.write_text(old)
    if several:
        to_file = functools.partial(jit.FileStorer, out)
        members = [First, Second, to_file] if rng.random() < 0.7 else [to_file, Second]
        if fault == "target":  # a real fault: the place to write to does not exist
            members = [First, functools.partial(jit.FileStorer, tmp / "missing" / "out.txt")] + [Second] * rng.choice((0, 1))
            ctx.count("unwritable_targets")
        rng.shuffle(members)
        storer, storer_kw = jit.StorerSet, dict(storer_cls_set=rng.choice((set, list, tuple))(members))
        ctx.count("sets")
    else:
        members = [First]
        storer, storer_kw = First, dict(marker=rng.choice(("first", "other")))
    if rng.random() < 0.5 or fault == "format":
        storer_kw["formatter_cls"] = Formatter
    note = rng.random()
    kept = snapshot([loader_kw, algorithm_kw, storer_kw])
    # a user may also run the dispatcher directly
    static = rng.random() < 0.3
    if static:
        ctx.count("static")
        dispatcher = Dispatcher(
            functools.partial(Loader, **loader_kw), functools.partial(Algorithm, **algorithm_kw), functools.partial(storer, **storer_kw), note=note
        )
        run = dispatcher.run
    else:
        solver = jit.Solver(
            algorithm=Algorithm, algorithm_kwargs=algorithm_kw, loader=Loader, loader_kwargs=loader_kw, storer=storer,
            storer_kwargs=storer_kw, dispatcher=Dispatcher, dispatcher_kwargs=dict(note=note),
        )
        run = solver.solve
        ctx.check("optimize" not in names(log) and "loader" not in names(log), "eager", "solved before being asked to")
    stdout = io.StringIO()
    result = error = None
    with contextlib.redirect_stdout(stdout):
        try:
            result = run()
        except BOOMS as exc:
            error = exc
        except OSError as exc:
            if fault != "target":
                raise
            error = exc
    ctx.count("runs")
    got = names(log)
    ctx.check(stdout.getvalue() == "", "unexpected-output", lambda: repr(stdout.getvalue()[:200]))
    ctx.check(snapshot([loader_kw, algorithm_kw, storer_kw]) == kept, "options-changed", lambda: f"{loader_kw, algorithm_kw, storer_kw}")
    ctx.check(log.events[0] == ("dispatcher", note), "dispatcher-options", lambda: f"{log.events[0]}")
    loaders = [e for e in log.events if e[0] == "loader"]
    ctx.check(
        len(loaders) == 1 and all(loaders[0][1].get(k) == v for k, v in loader_kw.items()),
        "loader",
        lambda: f"{len(loaders)} loads with {loaders}",
    )
    algorithms = [e for e in log.events if e[0] == "algorithm"]
    if fault == "load":
        ctx.check(not algorithms and "store" not in got, "goes-on-without-instance", lambda: f"{got}")
    else:
        ctx.check(
            len(algorithms) == 1 and got.count("optimize") == 1 and all(algorithms[0][1].get(k) is v for k, v in algorithm_kw.items()),
            "algorithm",
            lambda: f"{len(algorithms)} built, {got.count('optimize')} runs; asked for {algorithm_kw}, got {algorithms}",
        )
        ctx.check(got.index("loader") < got.index("optimize"), "order", lambda: f"{got}")
    stores = [e for e in log.events if e[0] == "store"]
    recording = [m for m in members if m in (First, Second)]
    if fault in ("load", "optimize"):
        ctx.check(not stores and out.read_text() == old, "stores-without-result", lambda: f"{got} {out.read_text()[:80]!r}")
    if fault == "format" and several:
        ctx.count("kept_files")
        ctx.check(out.read_text() == old, "loses-the-previous-solution", lambda: f"{out.read_text()[:80]!r}")
    if fault is not None and not (fault == "store" and not recording):
        ctx.count("failures")
        ctx.check(error is not None, f"hides-failure:{fault}", lambda: f"{got}")
        return
    if not ctx.check(error is None and result is not None, "no-result", lambda: f"{result} {error}"):
        return
    optimized = [e for e in log.events if e[0] == "optimized"]
    ctx.check(result is optimized[-1][2], "returns-something-else", lambda: f"{got}")
    ctx.check(
        all(e[2] is result for e in stores) and len(stores) == len(recording), "stored", lambda: f"{len(stores)} of {len(recording)}: {got}"
    )
    ctx.count("stored", len(stores))
    ctx.check(all(got.index("optimized") < k for k, n in enumerate(got) if n == "store"), "order", lambda: f"{got}")
    markers = sorted(e[1] for e in stores)
    want = sorted({First: storer_kw.get("marker", "first"), Second: "second"}[m] for m in recording)
    ctx.check(markers == want, "storer-options", lambda: f"{markers} instead of {want}")
    storers = [e for e in log.events if e[0] == "storer"]
    if "formatter_cls" in storer_kw:
        ctx.check(
            all(e[2].get("formatter_cls") is Formatter for e in storers) and "format" in got, "storer-options", lambda: f"{storers}"
        )
    if several:
        text = out.read_text()
        ctx.check(
            report.header(text, "Planning UUID") == str(result.planning.uuid), "file-holds-another-solution", lambda: f"{text[:200]}"
        )
    served = 0 if oddity else sound(ctx, inst, result, "recorded")
    # a later run of the same solver starts from scratch, with what the file holds by then
    if rng.random() < 0.4:
        rows, inst, formatter2 = instance(rng)
        while formatter2 != formatter:
            rows, inst, formatter2 = instance(rng)
        path.write_text(files.text(rng, rows))
        n = len(log.events)
        second = run()
        ctx.count("reruns")
        later = [e[0] for e in log.events[n:]]
        ctx.check(
            later.count("loader") == 1 and later.count("optimize") == 1 and later.count("store") == len(recording) and second is not result,
            "rerun",
            lambda: f"{later}",
        )
        if not oddity:
            sound(ctx, inst, second, "rerun")
        ctx.check(snapshot([loader_kw, algorithm_kw, storer_kw]) == kept, "options-changed", lambda: f"{loader_kw, algorithm_kw, storer_kw}")
        if several:
            ctx.check(
                report.header(out.read_text(), "Planning UUID") == str(second.planning.uuid), "rerun:file-holds-another-solution", lambda: f"{later}"
            )
    if served:
        ctx.sig(rows, [e[0] for e in log.events], sorted(algorithm_kw))


def defaults(ctx, i, rng, tmp):
    """The shortest ways of using the library."""
    jit = ctx.jit
    rows, inst = files.cordeau(rng, n=rng.choice((1, 2, 3, 5)))
    path = tmp / "instance.txt"
    path.write_text(files.text(rng, rows))
    stdout = io.StringIO()
    if rng.random() < 0.5:
        with contextlib.redirect_stdout(stdout), workload.traced(jit) as roots:
            result = jit.Solver(loader_kwargs={"file_path": path}).solve()
        ctx.count("defaults")
        ctx.check(
            len(roots) == 1 and roots[0].result is result and isinstance(roots[0].algorithm, jit.InsertionAlgorithm),
            "default-algorithm",
            lambda: f"{[r.cls for r in roots]}",
        )
        rep = report.parse(stdout.getvalue())
        ctx.check(rep["uuid"] == str(result.planning.uuid), "default-report", lambda: stdout.getvalue()[:300])
    else:
        with contextlib.redirect_stdout(stdout), workload.traced(jit) as roots:
            result = jit.StaticDispatcher(functools.partial(jit.FileLoader, path), jit.InsertionAlgorithm).run()
        ctx.count("silent")
        ctx.check(len(roots) == 1 and roots[0].result is result, "default-run", lambda: f"{[r.cls for r in roots]}")
        ctx.check(stdout.getvalue() == "", "default-stores", lambda: stdout.getvalue()[:300])
    ctx.check(sorted(os.listdir(tmp)) == ["instance.txt"], "leaves-files", lambda: f"{os.listdir(tmp)}")
    ctx.count("runs")
    if sound(ctx, inst, result, "defaults"):
        ctx.sig(rows, "defaults")


def nested(ctx, i, rng, tmp):
    """Composed solving methods hand the requested options to the methods they are made of."""
    jit = ctx.jit
    rows, inst, formatter = instance(rng)
    while not inst.trips:
        rows, inst, formatter = instance(rng)
    path = tmp / "instance.txt"
    path.write_text(files.text(rng, rows))
    strategies = workload.STRATEGIES
    searches = workload.SEARCHES
    pick = getattr(jit, rng.choice(strategies))
    crit = getattr(jit, rng.choice(workload.CRITERIA))
    search = getattr(jit, rng.choice(searches))
    kind = rng.choice(("grasp", "iterative", "sequential"))
    used = set()
    probes = {}
    for name in strategies:
        cls = getattr(jit, name)

        class Probe(cls):
            def compute(self, *args, __name=name, **kwargs):
                used.add(("strategy", __name))
                return super().compute(*args, **kwargs)

        probes[name] = Probe

    class Search(search):
        def improve(self, *args, **kwargs):
            used.add(("search", search.__name__))
            return super().improve(*args, **kwargs)

    class Criterion(crit):
        def scoring(self, *args, **kwargs):
            used.add(("criterion", crit.__name__))
            return super().scoring(*args, **kwargs)

    insertion = dict(strategy_cls=probes[pick.__name__], criterion_cls=Criterion)
    episodes = rng.choice((1, 2))
    if kind == "grasp":
        kw = dict(first_solution_kwargs=dict(insertion, episodes=episodes, randomized_size=2), local_search_kwargs=dict(strategy_cls=Search), episodes=1)
        cls = jit.GraspAlgorithm
    elif kind == "iterative":
        kw = dict(insertion, episodes=episodes, randomized_size=2)
        cls = jit.IterativeAlgorithm
    else:
        kw = dict(algorithms_cls=[(jit.InsertionAlgorithm, dict(insertion)), (jit.LocalSearchAlgorithm, dict(strategy_cls=Search))])
        cls = jit.SequentialAlgorithm
    ctx.note((kind, pick.__name__, crit.__name__, search.__name__))
    kept = snapshot(kw)
    stdout = io.StringIO()
    with contextlib.redirect_stdout(stdout), workload.traced(jit) as roots:
        result = jit.Solver(
            loader_kwargs={"file_path": path, "formatter_cls": getattr(jit, formatter)}, algorithm=cls, algorithm_kwargs=kw, storer=jit.storers.NaiveStorer
        ).solve()
    ctx.count("nested_options")
    ctx.count("runs")
    ctx.check(stdout.getvalue() == "", "unexpected-output", lambda: repr(stdout.getvalue()[:200]))
    ctx.check(len(roots) == 1 and roots[0].result is result, "returns-something-else", lambda: f"{[r.cls for r in roots]}")
    ctx.check(snapshot(kw) == kept, f"options-changed:{kind}", lambda: f"{kept} -> {kw}")
    served = sound(ctx, inst, result, f"nested-{kind}")
    want = {("strategy", pick.__name__)} | ({("criterion", crit.__name__)} if served > 1 else set())
    ctx.check(
        want <= used and not {("strategy", s) for s in strategies if s != pick.__name__} & used,
        f"nested-options:{kind}:construction",
        lambda: f"{used}",
    )
    if kind != "iterative":
        ctx.check(("search", search.__name__) in used, f"nested-options:{kind}:search", lambda: f"{used}")
    if served:
        ctx.sig(rows, kind, sorted(used))


def case(ctx, i, rng):
    if rng.random() < 0.01:
        timed(ctx, rng)
        return
    with tempfile.TemporaryDirectory(prefix="vp-c17-") as tmp:
        tmp = pathlib.Path(tmp)
        kind = i // 8 % 20
        (defaults if kind < 5 else nested if kind < 8 else recorded)(ctx, i, rng, tmp)
