"""Driver of one check:  python -m vp.run PROP [quick|thorough] [--replay FILE] [--cases N] [--seed S]

Spreads the check's cases over worker processes (half of them under `python -O`, where the library's assertions are off),
merges what their monitors observed, and decides:
    exit 0  held on everything explored         exit 1  VIOLATION property=<id> replay=<path>
    exit 2  inconclusive (a deciding monitor was not reached, or the harness itself failed)
"""
import collections
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
OUT = os.environ.get("VP_EVIDENCE", HERE)  # elsewhere only for trials on copies of the repository


def environment():
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONPATH=HERE,
        MPLBACKEND="Agg",
        MPLCONFIGDIR=os.environ.get("MPLCONFIGDIR", "/opt/venv/mplconfig"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    return env


def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["mechanism"]: e for e in data.get("findings", []) if e["property"] == prop}


def launch(prop, tier, seed, n, workers, deadline, tmp, only=None, optimize=None):
    procs = []
    for w in range(workers):
        opt = (w % 2 == 1) if optimize is None else optimize
        out = os.path.join(tmp, f"w{w}.json")
        cmd = [PY] + (["-O"] if opt else []) + ["-m", "vp.worker", prop, tier, str(seed), str(w), str(n), str(workers)]
        cmd += [out, str(deadline)] + ([str(only)] if only is not None else [])
        log = open(os.path.join(tmp, f"w{w}.log"), "w")
        procs.append((subprocess.Popen(cmd, cwd=tmp, env=environment(), stdout=log, stderr=log), out, log, opt))
        if only is not None:
            break
    return procs


def collect(procs, hard):
    t0 = time.monotonic()
    results, failures = [], []
    for p, out, log, opt in procs:
        try:
            p.wait(max(1.0, hard - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            failures.append(f"worker killed after {hard} s")
        log.close()
        if os.path.exists(out):
            with open(out) as f:
                results.append(json.load(f))
        else:
            with open(log.name) as f:
                failures.append(f"worker ended with {p.returncode}: {f.read()[-1500:]}")
    return results, failures


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    cases = None
    args = list(argv[1:])
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--cases":
            cases = int(args.pop(0))
        elif a == "--seed":
            seed = int(args.pop(0))
        else:
            raise SystemExit(f"unknown argument {a}")
    sys.path.insert(0, HERE)
    os.environ.setdefault("MPLBACKEND", "Agg")
    mod = importlib.import_module(f"vp.checks.{prop.lower()}")
    t0 = time.monotonic()
    workers = int(os.environ.get("VP_WORKERS", "8"))
    # Enough time for a loaded machine; a check normally needs a small part of it.
    deadline = {"quick": 420.0, "thorough": 780.0}[tier]
    n = cases if cases is not None else mod.CASES[tier]
    with tempfile.TemporaryDirectory(prefix=f"vp-{prop}-") as tmp:
        if replay:
            with open(replay) as f:
                rec = json.load(f)
            procs = launch(
                prop, rec["tier"], rec["seed"], n, 1, deadline, tmp, only=rec["case"], optimize=rec["optimize"]
            )
        else:
            procs = launch(prop, tier, seed, n, workers, deadline, tmp)
        results, failures = collect(procs, deadline + 90.0)

    counts = collections.Counter()
    sigs, samples, errors, violations = set(), [], [], {}
    total = 0
    for res in results:
        counts.update(res["counts"])
        sigs.update(res["sigs"])
        samples += res["samples"]
        errors += res["errors"]
        total += res["cases"]
        for v in res["violations"]:
            v["optimize"] = bool(res["optimize"])
            kept = violations.get(v["mechanism"])
            if kept is None or (v["case"] or 0) < (kept["case"] or 0):
                if kept is not None:
                    v["n"] += kept["n"]
                violations[v["mechanism"]] = v
            else:
                kept["n"] += v["n"]
    known = known_findings(prop)
    fresh = {m: v for m, v in violations.items() if m not in known}
    wall = time.monotonic() - t0

    for m in known:
        if m in violations:
            print(f"KNOWN-FINDING: property={prop} {known[m]['what']}")
    if replay:
        for v in violations.values():
            print(json.dumps(v, indent=1))
    missing = []
    if not replay and cases is None:
        for name, least in mod.REQUIRED.items():
            if counts[name] < least:
                missing.append(f"{name}: {counts[name]} < {least}")
    write_evidence(prop, tier, seed, mod, total, counts, sigs, samples, violations, fresh, wall, results)
    print(
        f"{prop} [{tier}, seed {seed}]: {total} cases, {len(sigs)} distinct non-trivial, "
        f"{counts['oracle_evaluations']} oracle evaluations, {len(fresh)} violation kinds, {wall:.1f} s"
    )
    code = 0
    if fresh:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for k, (m, v) in enumerate(sorted(fresh.items())[:10]):
            path = os.path.join(OUT, "replays", f"{prop}-{tier}-{seed}-{k}.json")
            with open(path, "w") as f:
                json.dump(dict(v, property=prop, tier=tier, seed=seed), f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"    {m} (x{v['n']}, first in case {v['case']}{' -O' if v['optimize'] else ''}): ", end="")
            print(str(v["detail"]).strip().replace("\n", "\n      ")[:400])
        code = 1
    else:
        if failures or errors or not results:
            for e in failures + errors[:3]:
                print(f"HARNESS: {e}")
            code = 2
        if missing:
            print(f"INCONCLUSIVE: monitors not reached often enough: {'; '.join(missing)}")
            code = 2
    return code


def write_evidence(prop, tier, seed, mod, total, counts, sigs, samples, violations, fresh, wall, results):
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    data = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="exploration",
        coverage=dict(
            evaluations=total,
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=samples[:4] or ["no case was sampled"],
            observed={k: v for k, v in sorted(counts.items())},
            violation_kinds={m: v["n"] for m, v in sorted(violations.items())},
            workers=[dict(optimize=r["optimize"], cases=r["cases"], stopped_early=r["stopped_early"]) for r in results],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=sum(v["n"] for v in fresh.values()),
    )
    path = os.path.join(OUT, "evidence", f"{prop}.json")
    tmp = f"{path}.tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, default=str)
    os.replace(tmp, path)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
