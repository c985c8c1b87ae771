"""setup_cmd: checks that what the checks stand on is there (nothing has to be built: jinete is pure Python)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from vp import core, inst, oracle

    sys.path.insert(0, core.REPO)
    import jinete as jit

    assert os.path.realpath(jit.__file__).startswith(core.LIB), jit.__file__
    for k in range(1, 100):
        name = f"c{k:02d}"
        if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks", f"{name}.py")):
            importlib.import_module(f"vp.checks.{name}")
    # the oracle on a route worked out by hand: (0,0) -> pickup (3,4) from 10, 2 long -> delivery (3,0) -> (0,0)
    S, T, V = inst.S, inst.T, inst.V
    v = V("v", S(0.0, 0.0, 0.0, 100.0), None, 1.0, 16.0)
    t = T("t", S(3.0, 4.0, 10.0, 20.0, 2.0), S(3.0, 0.0, 0.0, 16.0, 0.0), 1.0, 4.0)
    world = inst.Inst("EUCLIDEAN", [v], [t])
    stops = [dict(pos=p, p=a, d=b) for p, a, b in (((0.0, 0.0), [], []), ((3.0, 4.0), ["t"], []), ((3.0, 0.0), [], ["t"]), ((0.0, 0.0), [], []))]
    obs = dict(vehicle="v", stops=stops)
    rows = oracle.simulate(world, obs)
    assert [r["arrival"] for r in rows] == [0.0, 5.0, 16.0, 19.0], rows
    for s, r in zip(stops, rows):
        s["start"] = r["start"]
    assert list(oracle.broken(oracle.violations(world, obs))) == ["vehicle_timeout"], oracle.violations(world, obs)
    print("ready")


if __name__ == "__main__":
    main()
