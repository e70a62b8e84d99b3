"""Run the check of each planted bug's property against a scratch copy with the bug.

python3 tools/runseeds.py [id ...] [--all-checks]
"""
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(V, "seeded")))
allc = "--all-checks" in sys.argv
from kfa.run import table  # noqa: E402

for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    with tempfile.TemporaryDirectory(prefix="runseed", dir="/tmp") as tmp:
        w = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", w])
        subprocess.check_call(["git", "apply", os.path.join(d, "patch.diff")], cwd=w)
        # the checks run from a copy so that committed reports and evidence stay as they are
        vc = os.path.join(tmp, "verif")
        subprocess.check_call(["cp", "-a", V, vc])
        env = dict(os.environ, KFA_REPO=w, PYTHONDONTWRITEBYTECODE="1")
        out = []
        for p in (sorted(table()) if allc else [m["property"]]):
            r = subprocess.run([sys.executable, "-m", "kfa.run", p], cwd=vc, env=env, capture_output=True, text=True)
            hit = "VIOLATION property=%s " % p in r.stdout
            if p == m["property"] or r.returncode != 0:
                out.append("%s:%s" % (p, "CAUGHT" if r.returncode == 1 and hit else "exit %d%s" % (r.returncode, " undecided" if "UNDECIDED" in r.stdout else "")))
        print(i, m["property"], " ".join(out), flush=True)
