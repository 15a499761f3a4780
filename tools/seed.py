"""Planting bugs.  seed.py new DEF.py   creates seeded/<id>/ from a definition file
                   seed.py confirm ID [--no-tests]  confirms it in a scratch copy of /repo
                   seed.py catch ID [PROP]  runs the check of its property with the change applied to /repo, then undoes it

A definition file sets ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)."""
import json, os, shutil, subprocess, sys, xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = "/tmp/w/wt"
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it does not
HERE="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$HERE/demo.py"
'''
SKIP = "test_brownian test_sde1 test_sde2 test_underdamped_langevin test_detest test_interpolation test_solver".split()


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def new(path):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(V, "seeded", d["ID"])
    os.makedirs(out, exist_ok=True)
    wt = os.path.join(SCR, "new-" + d["ID"])
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh("git", "clone", "-q", "/repo", wt)
    for f, a, b in d["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    open(os.path.join(out, "patch.diff"), "w").write(sh("git", "-C", wt, "diff").stdout)
    shutil.rmtree(wt)
    open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "demo.py"), "w").write(d["DEMO"].lstrip("\n"))
    json.dump(dict(property=d["PROPERTY"], needs=d["NEEDS"], what_it_breaks=d["BREAKS"]),
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("created", d["ID"])


def confirm(ID, tests=True):
    out = os.path.join(V, "seeded", ID)
    wt = os.path.join(SCR, ID)
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    shutil.copytree("/repo", wt, symlinks=True)
    try:
        demo = lambda: sh("bash", os.path.join(out, "demo.sh"), cwd=wt)
        d0 = demo()
        a = sh("git", "apply", os.path.join(out, "patch.diff"), cwd=wt)
        d1 = demo()
        ok = d0.returncode == 0 and a.returncode == 0 and d1.returncode != 0
        print(ID, "demo clean", d0.returncode, "apply", a.returncode, "patched", d1.returncode, flush=True)
        if not ok:
            print(d0.stderr[-1500:], a.stderr, d1.stdout[-500:])
        else:
            print("   ", (d1.stderr.strip().splitlines() or ["?"])[-1][:200])
        if ok and tests:
            env = dict(os.environ, PYTHONPATH=wt, JAX_PLATFORMS="cpu", EQX_GETKEY_SEED="1", PYTHONHASHSEED="0",
                       PYTHONDONTWRITEBYTECODE="1", HOME="/root")
            x = os.path.join(wt, "junit.xml")
            subprocess.run(["timeout", "840", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n",
                            os.environ.get("N", "6"), "--dist", "worksteal", "-m", "not slow", "--timeout=300", "--tb=line",
                            "-o", "junit_family=xunit2", "--junitxml=" + x] + [f"--ignore=test/{m}.py" for m in SKIP] + ["test"],
                           cwd=wt, env=env, capture_output=True, text=True)
            res = os.path.join(wt, "res.json")
            sh("python3", "/opt/vp/results.py", res, "junit:" + x)
            r = json.load(open(res))
            stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(r["passed"])
            bad = [t for t in stable if t not in passed]
            print(ID, "tests: stable failing =", len(bad), bad[:5], flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)


def catch(ID, prop=None, tier="quick"):
    out = os.path.join(V, "seeded", ID)
    prop = prop or json.load(open(os.path.join(out, "meta.json")))["property"]
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip()
    assert sh("git", "-C", "/repo", "apply", os.path.join(out, "patch.diff")).returncode == 0
    try:
        p = sh("python3", "run.py", prop, "--tier", tier, cwd=V)
        print(ID, prop, "exit", p.returncode, "CAUGHT" if p.returncode == 1 else "*** MISSED ***", flush=True)
        print("   ", p.stdout.strip()[:300].replace("\n", " | "), p.stderr[-300:] if p.returncode == 2 else "")
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new":
        for p in sys.argv[2:]:
            new(p)
    elif c == "confirm":
        for i in [a for a in sys.argv[2:] if a[0] != "-"]:
            confirm(i, "--no-tests" not in sys.argv)
    elif c == "catch":
        for i in sys.argv[2:]:
            i, _, p = i.partition(":")
            catch(i, p or None)
