"""Tries planted changes in scratch copies of /repo (never in /repo itself).

    python tools/try_seeded.py ID... [--checks C01,C02] [--no-tests]

For each: the patch applies, the stable tests pass, the demonstration passes without it and fails with it, and which checks
catch it (the property's own, or those given; `all`)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def env(copy):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/venv/mplconfig", PYTHONHASHSEED="0")
    return e


def tests(copy):
    out = os.path.join(copy, "junit-vp.xml")
    subprocess.run(
        [PY, "-m", "pytest", "-q", "tests", "-p", "no:cacheprovider", "--timeout=100", "--randomly-seed=0", "--randomly-dont-reorganize",
         "-o", "junit_family=xunit2", f"--junitxml={out}"],
        cwd=copy, env=env(copy), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
    bad, n = [], 0
    for c in ET.parse(out).getroot().iter("testcase"):
        n += 1
        if any(x.tag in ("failure", "error") for x in c):
            bad.append(f"{c.get('classname')}.{c.get('name')}")
    os.remove(out)
    return n, bad


def demo(copy, folder):
    with tempfile.TemporaryDirectory(prefix="demo-") as d:
        for f in os.listdir(folder):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(folder, f), d)
        try:
            p = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env(copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        except subprocess.TimeoutExpired:
            return "timeout", ""
        return p.returncode, p.stdout.decode()[-500:]


def main():
    ids, checks, run_tests = [], None, True
    args = sys.argv[1:]
    while args:
        a = args.pop(0)
        if a == "--checks":
            checks = args.pop(0).split(",")
        elif a == "--no-tests":
            run_tests = False
        else:
            ids.append(a)
    for sid in ids or sorted(os.listdir(os.path.join(HERE, "seeded"))):
        folder = os.path.join(HERE, "seeded", sid)
        meta = json.load(open(os.path.join(folder, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seeded-")
        try:
            copy = os.path.join(tmp, "repo")
            shutil.copytree("/repo", copy, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
            line = [sid, meta["property"]]
            rc, text = demo(copy, folder)
            line.append(f"demo clean {rc}" + (f" ({text})" if rc else ""))
            p = subprocess.run(["git", "apply", os.path.join(folder, "patch.diff")], cwd=copy, stderr=subprocess.PIPE)
            if p.returncode:
                print(sid, "DOES NOT APPLY", p.stderr.decode())
                continue
            rc, text = demo(copy, folder)
            line.append(f"patched {rc}" + ("" if rc else "  <-- NOT SHOWN"))
            if run_tests:
                n, bad = tests(copy)
                line.append(f"tests {n - len(bad)}/{n} {bad[:3]}")
            which = checks or [meta["property"]]
            if which == ["all"]:
                which = [f"C{k:02d}" for k in range(1, 40) if os.path.exists(os.path.join(HERE, "vp", "checks", f"c{k:02d}.py"))]
            if which == ["none"]:
                which = []
            for c in which:
                e = dict(os.environ, VP_REPO=copy, PYTHONPATH=HERE, VP_EVIDENCE=tmp)
                p = subprocess.run([PY, "-m", "vp.run", c, "quick"], cwd=HERE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                out = p.stdout.decode()
                kinds = [x.strip()[:110] for x in out.splitlines() if x.startswith("    ")]
                line.append(f"{c}: " + {0: "missed", 1: "CAUGHT"}.get(p.returncode, f"rc {p.returncode} {out[-300:]}") + (f" {kinds[0]}" if kinds else ""))
            print(" | ".join(line), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
