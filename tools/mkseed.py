"""Plant bugs: python3 tools/mkseed.py SPEC.py [id ...]

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new), ...], needs,
what_it_breaks, demo (python source).  Every change is confirmed in a scratch copy of /repo: it
compiles, the stable tests pass, and the demonstration fails with it and passes without it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=os.path.join(cwd, "src"))
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=600)


def plant(s):
    with tempfile.TemporaryDirectory(prefix="seed", dir="/tmp") as tmp:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        d = os.path.join(tmp, s["id"])
        os.makedirs(d)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        r = sh(["bash", os.path.join(d, "demo.sh")], w)
        if r.returncode != 0:
            return "demo fails on the clean tree: " + r.stdout[-800:] + r.stderr[-800:]
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) < 1:
                return "text not found in %s: %r" % (f, old)
            n = s.get("count", 1)
            if t.count(old) != n:
                return "text found %d times in %s: %r" % (t.count(old), f, old)
            open(p, "w").write(t.replace(old, new))
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], w)
        if r.returncode != 0 and "10 passed" not in r.stdout:
            return "tests fail: " + r.stdout[-1500:]
        r = sh([PY, "-c", "import kalmankit, kalmankit.standard, kalmankit.extended, kalmankit.utils; assert kalmankit.__file__.startswith(%r), kalmankit.__file__" % w], w)
        if r.returncode != 0:
            return "import fails: " + r.stderr[-500:]
        r = sh(["bash", os.path.join(d, "demo.sh")], w)
        if r.returncode == 0:
            return "demo passes with the change"
        diff = subprocess.check_output(["git", "diff"], cwd=w, text=True)
        dst = os.path.join(V, "seeded", s["id"])
        os.makedirs(dst, exist_ok=True)
        open(os.path.join(dst, "patch.diff"), "w").write(diff)
        shutil.copy(os.path.join(d, "demo.py"), dst)
        shutil.copy(os.path.join(d, "demo.sh"), dst)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(os.path.join(dst, "meta.json"), "w"), indent=1)
        return None


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        e = plant(s)
        print(s["id"], "planted" if e is None else "REJECTED: " + e)


main()
