"""One shard of one check: python [-O] -m vp.worker PROP TIER SEED LO HI STEP OUT DEADLINE [CASE]"""
import importlib
import json
import os
import resource
import sys
import time


def main():
    prop, tier, seed, lo, hi, step, out, deadline = sys.argv[1:9]
    only = int(sys.argv[9]) if len(sys.argv) > 9 else None
    os.environ.setdefault("MPLBACKEND", "Agg")
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import logging

    logging.disable(logging.CRITICAL)
    from . import core, hashing

    sys.path.insert(0, core.REPO)
    import jinete as jit

    assert os.path.realpath(jit.__file__).startswith(core.LIB), jit.__file__
    hashing.install(jit)
    mod = importlib.import_module(f"vp.checks.{prop.lower()}")
    ctx = core.Ctx(prop, tier, int(seed))
    ctx.jit = jit
    if hasattr(mod, "start"):
        mod.start(ctx)
    t0 = time.monotonic()
    indices = [only] if only is not None else range(int(lo), int(hi), int(step))

    def one(c, i, rng):
        hashing.reseed((prop, seed, i))
        mod.case(c, i, rng)

    stopped = False
    for i in indices:
        if time.monotonic() - t0 > float(deadline) or ctx.counts.get("hangs", 0) > 1:  # seen enough
            stopped = True
            break
        ctx.run_case(one, i, getattr(mod, "CPU_LIMIT", 60.0))
    if hasattr(mod, "finish"):
        mod.finish(ctx)
    res = core.jsonable(ctx.dump())
    res["stopped_early"] = stopped
    res["seconds"] = time.monotonic() - t0
    with open(out, "w") as f:
        json.dump(res, f)


if __name__ == "__main__":
    main()
