"""Entry point: python3 -m kfa.run C01 [--thorough]"""
import json
import gc
import os
import resource
import signal
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from .interp import Unsupported  # noqa: E402
from .loader import AnalysisBroken  # noqa: E402
from .report import Report, finish, VERIF, VIOLATED, UNDECIDED  # noqa: E402


UNIT, TOTAL, SHORT_TIME = 120, 600, 120
"""Seconds one obligation may take before it is reported as undecided, and a whole check before it reports what it has."""


UNIT_MEM, TOTAL_MEM, LIMIT_MEM = 5 << 30, 8 << 30, 16 << 30
"""Bytes of memory: the same two limits, and what the process may never exceed."""


class OutOfTime(BaseException):
    pass


def held():
    """Memory in use, in bytes."""
    with open("/proc/self/statm") as f:
        return int(f.read().split()[1]) * resource.getpagesize()


def clock(rep):
    gc.collect()
    base = held()
    resource.setrlimit(resource.RLIMIT_AS, (LIMIT_MEM, resource.getrlimit(resource.RLIMIT_AS)[1]))
    unit = [base]

    def tick(sig, frame):
        now = time.time()
        mem = held()
        if now - rep.t0 > TOTAL or mem - base > TOTAL_MEM:
            raise OutOfTime()
        if mem - unit[0] > UNIT_MEM:
            unit[0] = mem
            raise Unsupported(None, "memory limit of one obligation (%d GB) reached" % (UNIT_MEM >> 30))
        if now - rep.unit_t0 > UNIT:
            rep.unit_t0 = now
            raise Unsupported(None, "time limit of one obligation (%d s) reached" % UNIT)

    signal.signal(signal.SIGALRM, tick)
    signal.setitimer(signal.ITIMER_REAL, 1, 1)


def titles():
    out = {}
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for l in f:
            if l.strip():
                d = json.loads(l)
                out[d["id"]] = d["title"]
    return out


def table():
    from . import filters, behave, jac, ver

    t = {}
    for m in (filters, behave):
        for k, v in m.CHECKS.items():
            t[k] = (v, filters.EXACT, filters.TRUST)
    for k, v in ver.CHECKS.items():
        t[k] = (v, ver.ASSUME, ver.TRUST)
    for k, v in jac.CHECKS.items():
        t[k] = (v, jac.ASSUME, jac.TRUST)
    return t


VG = "predicated dataflow to value-graph normal forms (matrix algebra), recurrences compared by partition refinement"
NOTE = "Decides the property from the source for every input, series length and dimension in exact arithmetic; trusts the engine's model of Python and numpy%s. Constructs it cannot model are reported as undecided, never as held."
TECH = {
    "C10": "predicated dataflow: argument values of every reached call of a user function",
    "C13": "alias and ownership dataflow: owner sets of every in-place write",
    "C14": "effect and state dataflow: written locations replaced by arbitrary values, value-graph equality",
    "C15": "symbolic sequence analysis of the gain history",
    "C16": "allocation-site, escape and element-type dataflow on the results",
    "C17": "index dependence analysis through recurrences",
    "C18": "dependence closure through recurrences and conditions",
    "C19": "symmetry fixpoint on value graphs and decomposition of the update",
    "C20": "symbolic shape inference",
    "C21": "exception-flow analysis: handlers around user calls and solves, kind and guard of every solve",
    "C22": "effect analysis over the resolved call graph, imports included",
    "C23": "homogeneity-degree analysis through recurrences",
    "C25": "predicated dataflow: object identity, element type, shape and value of the helper's results",
    "C27": "exception-flow and completeness analysis of the version record over a value-graph of strings",
    "C28": "value-graph equality of the version record with a reference look-up, over symbolic outputs of git",
    "C29": "effect analysis of every spawned command (program, arguments, directory, environment, shell) and file operation",
    "C30": "value-graph equality of the selection among sources, path by path",
    "C31": "value-graph equality of the keyword parser over computed collections",
    "C26": "name binding and call binding analysis, value-graph equality of call forms",
}
META = {k: dict(technique=v, level="proof", note=NOTE % (" and the reference equations" if k in ("C14", "C15", "C19", "C10")else "")) for k, v in TECH.items()}
VNOTE = "Decides the property from the source for every output and failure of the commands, with strings kept symbolic; a difference is reported only when a small format model of git's outputs confirms it, otherwise it is undecided. Trusts the engine's model of Python, subprocess and os.path%s."
for _k in ("C27", "C28", "C29", "C30", "C31"):
    META[_k]["note"] = VNOTE % ("" if _k in ("C27", "C29") else " and the reference look-up")
META["C32"] = dict(
    technique="symbolic differentiation of the model functions read from the syntax tree, compared as normal forms",
    level="proof",
    note="Exact for every state value; a difference of closed forms is reported when it is confirmed at a sample state, otherwise it is undecided. Trusts the reader of the model functions and the differentiation rules; models that branch on the state are undecided.",
)


def meta(pid):
    m = META.get(pid)
    if m:
        return m
    return dict(
        technique=VG,
        level="proof",
        note="Decides the property from the source for every input, series length and dimension in exact arithmetic; trusts the engine's model of Python and numpy and the reference equations. Constructs it cannot model are reported as undecided, never as held.",
    )


SHORTABLE = ["C%02d" % i for i in range(1, 25) if i not in (22,)]


def short(pid, fn, rep):
    """Obligations left undecided for series of every length are tried for series of one and two observations, where every
    loop is a fixed number of steps.  Only violations count: nothing is claimed from a fixed length."""
    from .model import SHORT
    from .interp import UNROLL

    for k in (1, 2):
        r2 = Report(pid, rep.title, "quick")
        # at most SHORT_TIME seconds each, and the whole check stays within its limit
        r2.t0 = max(rep.t0, time.time() - TOTAL + SHORT_TIME)
        SHORT[0], UNROLL[0] = k, True
        try:
            clock(r2)
            fn(r2)
        except (OutOfTime, AnalysisBroken, Unsupported):
            pass
        except Exception as e:
            if os.environ.get("KFA_DEBUG"):
                raise
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            SHORT[0], UNROLL[0] = None, False
        bad = [o for o in r2.obls if o.status == VIOLATED]
        if os.environ.get("KFA_SHORT"):
            print("   short %d: %d held %d violated %d undecided" % (k, sum(o.status == "held" for o in r2.obls), len(bad), sum(o.status == "undecided" for o in r2.obls)))
        for o in bad:
            o.instance += " with %d observation%s" % (k, "s" * (k > 1))
            rep.obls.append(o)
        if bad:
            return


def main(argv):
    thorough = "--thorough" in argv
    ids = [a for a in argv if not a.startswith("-")]
    tb = table()
    if ids == ["all"]:
        ids = sorted(tb)
    tt = titles()
    rc = 0
    for pid in ids:
        fn, assume, trust = tb[pid]
        rep = Report(pid, tt[pid], "thorough" if thorough else "quick")
        rep.assumptions = list(assume)
        rep.trusted = list(trust)
        try:
            clock(rep)
            fn(rep)
        except OutOfTime:
            rep.add("time", "whole check", None, "time limit (%d s) or memory limit (%d GB) of the check reached" % (TOTAL, TOTAL_MEM >> 30))
        except (AnalysisBroken, Unsupported) as e:
            print("ANALYSIS BROKEN: %s: %s" % (pid, e))
            rep.add("anchor", str(e), None, "analysis stopped")
        except Exception as e:  # a construct the engine was not built for: nothing is claimed
            tb_ = traceback.extract_tb(e.__traceback__)[-1]
            rep.add("engine", "%s in %s:%d" % (type(e).__name__, os.path.basename(tb_.filename), tb_.lineno), None, str(e)[:300])
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        und = any(o.status == UNDECIDED for o in rep.obls) and not any(o.status == VIOLATED for o in rep.obls)
        if pid in SHORTABLE and (und or os.environ.get("KFA_SHORT")):
            short(pid, fn, rep)
        r = finish(rep)
        rc = 1 if 1 in (rc, r) else max(rc, r)
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
