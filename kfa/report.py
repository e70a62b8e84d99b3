"""Obligations, reports and evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HELD, VIOLATED, UNDECIDED = "held", "VIOLATED", "undecided"


class Obl:
    __slots__ = ("rule", "instance", "status", "detail", "where")

    def __init__(self, rule, instance, status, detail="", where=""):
        self.rule, self.instance, self.status, self.detail, self.where = rule, instance, status, detail, where

    def key(self):
        return "%s | %s" % (self.rule, self.instance)


class Report:
    def __init__(self, prop, title, tier):
        self.prop, self.title, self.tier = prop, title, tier
        self.obls = []
        self.functions = set()
        self.sites = 0
        self.loops = 0
        self.recs = 0
        self.t0 = self.unit_t0 = time.time()
        self.assumptions = []
        self.level = "proof"
        self.explanation = ""
        self.trusted = []
        self.extra = {}
        self.min_obl = 1

    def add(self, rule, instance, ok, detail="", where=""):
        st = {True: HELD, False: VIOLATED, None: UNDECIDED}.get(ok, ok)
        self.obls.append(Obl(rule, instance, st, detail, where))
        self.unit_t0 = time.time()

    def saw(self, it):
        """Account for what an interpreter analysed."""
        for m, q, ln in it.analysed:
            self.functions.add("%s.%s" % (m, q))
        self.sites += sum(1 for e in it.events if e.kind == "enter")
        self.loops += len(it.loopT)
        self.recs += len(it.recs)


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                # finding: property=<id> key=<rule | instance> :: what fails
                body = l[len("finding:"):].strip()
                head, _, what = body.partition("::")
                pid = head.split("property=", 1)[1].split()[0]
                key = head.split("key=", 1)[1].strip()
                out.setdefault(pid, []).append((key, what.strip()))
    return out


def finish(rep):
    viol = [o for o in rep.obls if o.status == VIOLATED]
    und = [o for o in rep.obls if o.status == UNDECIDED]
    held = [o for o in rep.obls if o.status == HELD]
    known = known_findings().get(rep.prop, [])
    listed = []
    fresh = []
    for o in viol:
        k = next((w for key, w in known if key == o.key()), None)
        if k is not None:
            listed.append((o, k))
        else:
            fresh.append(o)
    wall = time.time() - rep.t0
    print("%s  %s" % (rep.prop, rep.title))
    print("  analysed: %d functions, %d call sites entered, %d loops, %d recurrence variables" % (len(rep.functions), rep.sites, rep.loops, rep.recs))
    print("  obligations: %d  held: %d  violated: %d  undecided: %d  (%.1f s)" % (len(rep.obls), len(held), len(viol), len(und), wall))
    for o in und:
        print("  UNDECIDED %s: %s" % (o.key(), o.detail))
    for o, w in listed:
        print("KNOWN-FINDING: property=%s %s" % (rep.prop, w or o.key()))
    out = os.environ.get("KFA_OUT", VERIF)
    os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(out, "reports"), exist_ok=True)
    rpath = os.path.join(out, "reports", rep.prop + ".txt")
    with open(rpath, "w") as f:
        f.write("%s %s\n" % (rep.prop, rep.title))
        for o in rep.obls:
            f.write("[%s] %s%s\n" % (o.status, o.key(), " @ " + o.where if o.where else ""))
            if o.detail:
                f.write("    " + o.detail.replace("\n", "\n    ") + "\n")
    if rep.level == "proof":
        cov = dict(
            obligations=len(rep.obls),
            discharged=len(held),
            checker_cmd="cd /verif && python3 -m kfa.run %s%s" % (rep.prop, " --thorough" if rep.tier == "thorough" else ""),
            trusted_base=rep.trusted,
        )
    else:
        cov = dict(rules_applied=len(rep.obls), rules_held=len(held))
    cov["explanation"] = rep.explanation
    cov["undecided"] = [o.key() + ": " + o.detail for o in und]
    cov["functions_analysed"] = sorted(rep.functions)
    cov["call_sites_entered"] = rep.sites
    cov["loops_summarised"] = rep.loops
    cov["recurrence_variables"] = rep.recs
    cov["rules"] = sorted({o.rule for o in rep.obls})
    cov["instances"] = [o.instance for o in rep.obls][:400]
    cov.update(rep.extra)
    ev = dict(
        property=rep.prop,
        tier=rep.tier,
        seed=int(os.environ.get("VERIF_SEED", "1") or 1),
        level=rep.level,
        coverage=cov,
        assumptions=rep.assumptions,
        wall_s=round(wall, 3),
        violations=len(fresh),
    )
    with open(os.path.join(out, "evidence", rep.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if fresh:
        for o in fresh[:12]:
            print("  violated: %s%s" % (o.key(), " @ " + o.where if o.where else ""))
            if o.detail:
                print("    " + o.detail[:2500].replace("\n", "\n    "))
        print("VIOLATION property=%s replay=%s" % (rep.prop, rpath))
        return 1
    if und and not held and not listed and all(o.rule != "anchor" for o in und):
        # the code is there but written with constructs the engine has no model for: no claim either way
        print("NOTHING DECIDED: %s: the %d obligations are all undecided" % (rep.prop, len(und)))
        return 0
    if len(held) + len(listed) == 0:
        print("ANALYSIS BROKEN: %s: no obligation decided (%d expected)" % (rep.prop, rep.min_obl))
        return 2
    if len(held) + len(listed) < rep.min_obl:
        print("REDUCED COVERAGE: %s: %d obligations decided, at least %d expected" % (rep.prop, len(held), rep.min_obl))
    return 0
