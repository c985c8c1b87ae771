"""HashCode submissions are valid and worth exactly what was reported."""
import pathlib
import tempfile

from .. import build, files, gen, observe, oracle, workload
from ..inst import Built
from ..oracle import close

CASES = dict(quick=1200, thorough=24000)
REQUIRED = {"submissions": 1000, "rides": 1500, "bonuses": 150, "left_out": 200, "several_vehicles": 150, "empty_vehicles": 150,
            "nothing_served": 15, "written_files": 300, "shipped": 3, "searched": 200, "crowded": 60}
RULE = (
    "case = a HashCode file loaded, solved with a random algorithm configuration and written as a submission; the submission "
    "is run through an implementation of the contest's judge and compared with the reported objective, the plan and the "
    "fleet; non-trivial = at least two rides served; distinct = by the submission"
)


def judge(ctx, rows, inst, result, text, name, kept_empty):
    jit = ctx.jit
    ctx.count("submissions")
    score, why = files.official_score(rows, text)
    if not ctx.check(why is None, "invalid-submission", lambda: f"[{name}] {why}: {text!r}", inst.data()):
        return
    got = result.optimization_value
    ctx.check(
        len(got) == 1 and close(got[0], score),
        "score",
        lambda: f"[{name}] the judge gives {score}, the result says {got}: {text!r}",
        inst.data(),
    )
    lines = text.split("\n") if text else []
    plan = {r.vehicle.identifier: [i for s in observe.route(r)["stops"] for i in s["p"]] for r in result.routes}
    want = sorted(v for v in plan.values() if v or kept_empty)
    have = sorted(x.split()[1:] for x in lines)
    ctx.check(want == have, "submission-is-not-the-plan", lambda: f"[{name}] {have} instead of {want}", inst.data())
    served = [i for v in plan.values() for i in v]
    ctx.check(
        close(result.coverage_rate, len(served) / len(inst.trips) if inst.trips else 1.0),
        "coverage",
        lambda: f"[{name}] {result.coverage_rate} with {len(served)} of {len(inst.trips)}",
        inst.data(),
    )
    ctx.count("rides", len(served))
    if inst.trips and not served:
        ctx.count("nothing_served")
    if len(served) < len(inst.trips):
        ctx.count("left_out")
    if any(not v for v in plan.values()):
        ctx.count("empty_vehicles")
    if sum(1 for v in plan.values() if v) > 1:
        ctx.count("several_vehicles")
    base = sum(oracle.dist("MANHATTAN", t.o.pos, t.d.pos) for t in inst.trips if t.id in served)
    if score > base:
        ctx.count("bonuses")
    if len(served) > 1:
        ctx.sig(sorted(lines))


class View:
    """A loaded instance with the interface the workloads expect."""

    def __init__(self, loaded):
        self.__dict__.update(loaded.__dict__)


def crowded(ctx, built, rng):
    """A local search that starts with as much as fits on one vehicle while the others wait at the depot."""
    jit = ctx.jit
    names = sorted(built.vehicles)
    routes = [jit.Route(built.vehicles[v]) for v in names]
    for t in sorted(built.inst.trips, key=lambda t: (t.o.e, t.d.l)):
        options = [r for r in jit.TailInsertionStrategy().compute(routes[0], built.trips[t.id]) if r is not None and r.feasible]
        if options:
            routes[0] = options[0]
    initial = jit.Result(jit.NaiveAlgorithm(built.fleet, built.job), jit.Planning(set(routes)), 0.0)
    ctx.count("crowded")
    strategy = rng.choice(workload.SEARCHES)
    return (
        "crowded",
        strategy,
        jit.LocalSearchAlgorithm(fleet=built.fleet, job=built.job, initial=initial, strategy_cls=getattr(jit, strategy)),
    )


def case(ctx, i, rng):
    jit = ctx.jit
    with tempfile.TemporaryDirectory(prefix="vp-c15-") as tmp:
        tmp = pathlib.Path(tmp)
        if rng.random() < 0.01:
            path = pathlib.Path(files.REPO) / "res/datasets/hashcode/a_example.in"
            if not path.exists():
                return
            rows = [[float(x) for x in line.split()] for line in path.read_text().splitlines()]
            inst = files.parse_hashcode(rows)
            ctx.count("shipped")
            packed = False
        else:
            packed = i % 60 == 7 or rng.random() < 0.25
            rows, inst = (
                files.hashcode(rng, n=rng.choice((2, 3, 3, 4, 6)), m=rng.choice((2, 2, 3)), roomy=True)
                if packed
                else files.hashcode(rng, n=rng.choice((0, 1, 2, 3, 5, 8, 12)), m=rng.choice((1, 2, 3)))
            )
            if i % 60 == 7:
                # rides whose bonus depends on when the vehicle leaves the depot after its first ride was moved elsewhere
                g, h = rng.randrange(3), rng.randrange(3)
                rows = [(30, 10, 2, 3, 1, 200), (2, 0, 2, 5, 44 + g, 60 + g), (20, 0, 21 + h, 0, 45 + g, 199), (22, 0, 23, 0, 64 + g, 199)]
                inst = files.parse_hashcode([[float(x) for x in r] for r in rows])
            path = tmp / "in.txt"
            path.write_text(files.text(rng, rows))
        loader = jit.FileLoader(path, formatter_cls=jit.HashCodeLoaderFormatter)
        built = View(files.Loaded(jit, inst, loader))
        kinds = workload.ALL + ("naive", "local-search", "local-search", "sequential-default") if inst.trips else ("insertion", "iterative", "naive", "grasp")
        if packed:
            name, desc, algorithm = crowded(ctx, built, rng)
        else:
            name, desc, algorithm = workload.scenario(jit, built, rng, kinds)
        ctx.note((name, desc))
        result = algorithm.optimize()
        if name not in ("insertion", "naive", "insertion-initial", "iterative"):
            ctx.count("searched")
        if rng.random() < 0.1 and inst.trips:
            result = jit.Result(algorithm, jit.Planning({jit.Route(v) for v in built.fleet.vehicles}), 0.0)
        how = rng.choice(("formatter", "formatter-keep", "file", "file"))
        if how == "file":
            out = tmp / "out.txt"
            if rng.random() < 0.3:
                out.write_text("999 something that was there before\n" * 50)
            jit.FileStorer(out, result=result, formatter_cls=jit.HashCodeStorerFormatter).store()
            text = out.read_text()
            ctx.count("written_files")
        elif how == "formatter":
            text = jit.HashCodeStorerFormatter(result=result).format()
        else:
            text = jit.HashCodeStorerFormatter(result=result, remove_empty_routes=False).format()
        judge(ctx, rows, inst, result, text, name, how == "formatter-keep")
        ctx.sample(dict(file=[list(r) for r in rows][:8], algorithm=(name, desc), submission=text))
