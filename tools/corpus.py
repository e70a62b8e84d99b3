"""Self-test of the checks: behaviour-preserving edits (must stay quiet) and bugs (must fire).

python3 tools/corpus.py keep|bugs [id-prefix ...] [--only=C01,C02] [-j8]

Each entry of tools/corpus/<kind>.py is applied to a scratch copy of /repo/src, and every check is
run against the copy.  Nothing of the analysed program is executed by the checks; `--tests` also runs the
repository's tests on the copy (to confirm an entry of the keep corpus, or that a bug passes them).
"""
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from kfa.run import table  # noqa: E402


def apply(w, edits):
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(w, f)
        t = open(p).read() if os.path.exists(p) else ""
        if old is None:
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(new)
            continue
        if old not in t:
            return "text not found in %s: %r" % (f, old)
        open(p, "w").write(t.replace(old, new) if len(e) < 4 else t.replace(old, new, e[3]))


def one(args):
    w, p, vdir, thorough = args
    env = dict(os.environ, KFA_REPO=w, PYTHONDONTWRITEBYTECODE="1", KFA_OUT=os.path.join(w, ".out"))
    try:
        r = subprocess.run([sys.executable, "-m", "kfa.run", p] + (["--thorough"] if thorough else []), cwd=vdir, env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return p, 124, "timeout"
    return p, r.returncode, r.stdout + r.stderr


def main():
    kind = sys.argv[1]
    pre = [a for a in sys.argv[2:] if not a.startswith("-")]
    only = next((a[7:].split(",") for a in sys.argv if a.startswith("--only=")), None)
    verbose = "-v" in sys.argv
    thorough = "--thorough" in sys.argv
    ns = {"V": V}
    exec(open(os.path.join(V, "tools", "corpus", kind + ".py")).read(), ns)
    ids = sorted(table())
    bad = 0
    with tempfile.TemporaryDirectory(prefix="corpus", dir="/tmp") as tmp, ThreadPoolExecutor(8) as ex:
        vdir = os.path.join(tmp, "verif")
        os.makedirs(vdir)
        subprocess.check_call(["cp", "-a", os.path.join(V, "kfa"), os.path.join(V, "properties.jsonl"), os.path.join(V, "known_findings.txt"), vdir])
        for name, spec in ns["CORPUS"].items():
            if pre and not any(name.startswith(q) for q in pre):
                continue
            edits, want = (spec, None) if kind.startswith("keep") else (spec[1:], spec[0])
            w = os.path.join(tmp, "w-" + name)
            subprocess.check_call(["git", "clone", "-q", "/repo", w])
            msg = apply(w, edits)
            if msg:
                print("%-34s BAD ENTRY %s" % (name, msg), flush=True)
                bad += 1
                continue
            tests = ""
            if "--tests" in sys.argv:
                e = dict(os.environ, PYTHONPATH=os.path.join(w, "src"), PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=w, env=e, capture_output=True, text=True)
                tests = " tests:%s" % r.stdout.strip().splitlines()[-1] if r.stdout.strip() else " tests:?"
            todo = only or (ids if kind.startswith("keep") or "--all" in sys.argv else want)
            res = list(ex.map(one, [(w, p, vdir, thorough) for p in todo]))
            fired = [p for p, rc, o in res if rc == 1]
            err = ["%s(%d)" % (p, rc) for p, rc, o in res if rc not in (0, 1)]
            und = [p for p, rc, o in res if rc == 0 and "UNDECIDED" in o]
            if kind.startswith("keep"):
                st = "ok" if not fired and not err else "ALARM"
                if st == "ok" and und:
                    st = "ok (undecided)"
            else:
                miss = [p for p in want if p not in fired]
                st = "ok" if not miss else "MISSED " + ",".join(miss)
            if not st.startswith("ok"):
                bad += 1
            print("%-34s %s%s%s%s%s" % (name, st, " fired:" + ",".join(fired) if fired else "", " errors:" + ",".join(err) if err else "", " undecided:" + ",".join(und) if und else "", tests), flush=True)
            if verbose:
                for p, rc, o in res:
                    if kind.startswith("keep") and (rc != 0 or p in und) or not kind.startswith("keep") and p in want and rc != 1:
                        print("    " + "\n    ".join(x[:300] for x in o.splitlines()[:14]))
            subprocess.check_call(["rm", "-rf", w])
    print("bad:", bad)


if __name__ == "__main__":
    main()
