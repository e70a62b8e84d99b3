"""Decisions about effects, state, aliasing, dependence and interfaces of the filters (C10-C26)."""
from .interp import Unsupported, ListR, ArrR, InstR, DictR, EnvR, where
from .loader import AnalysisBroken
from .model import Cfg, Session, set_ranges, ekf_step_args, N, LEN, letter, series
from .terms import *  # noqa: F401,F403
from .terms import RANGES
from .compare import compare, live_leaves, resolve, has_unk, System, Ranges, rec_letters, Assume, key_unk
from . import npmodel
from .dep import LookAhead, Degree, Found, Unsure, walk, closure_letters, DATA
from .model import n_
import ast
import copy
import re
from .filters import nan_helper, Run, Drive, MODS, METHODS, CFGS, exceptions, against, item, guard_kind, has_letter, let_has, key_has, last_gain, EXACT, TRUST, REFROOT

WHICH = ("KF", "EKF")
TABLES = ("predict", "update", "filter", "smooth")


def equal_to(run, va, ref, vb):
    """True / False / None without recording an obligation."""
    if run.err is not None or ref.err is not None:
        return None
    try:
        c = compare(run.it, va, ref.it, vb)
    except Unsupported:
        return None
    return {"equal": True, "different": False}.get(c.status)


def refrun(which, meth, cfg, **kw):
    b = Run(which, meth, cfg, ref=True, **kw)
    if b.err is not None:
        raise AnalysisBroken("reference: " + b.err)
    return b


def dead(ev):
    return ev.guard == FALSE or guard_kind(ev.guard) in ("never", "valid")


# ---------------------------------------------------------------- C10


def c10(rep):
    rep.explanation = "Every call of a user function reached from predict, update, filter and smooth is collected with its arguments: number of positional arguments, no keywords, and (predict, update) argument values equal to the arguments of the prediction or update; inside filter and smooth the state argument of f and of its Jacobian agree and the control argument is an element of U or an all-NaN control."
    rep.min_obl = 8
    arity = {"f": 2, "jacobian_A": 2, "h": 1, "jacobian_H": 1}
    for cfg in CFGS:
        for meth in METHODS:
            a = Run("EKF", meth, cfg)
            if meth == "predict" and a.err is None:
                # a control may also be None
                kw = a.kwargs(meth)
                kw["uk"] = ite(Node(("none", "uk"), TRUE, FALSE), NONE, kw["uk"])
                a = Run("EKF", None, cfg)
                a.meth, a.label = meth, "ExtendedKalmanFilter.predict [%s]" % cfg
                a.call(meth, kw=kw)
            rep.saw(a.it)
            if a.err is not None:
                rep.add("calling-convention", a.label, None, a.err, a.where())
                continue
            evs = [e for e in a.it.events if e.kind == "callback" and not dead(e)]
            ok = True
            for e in evs:
                nm, args, kw = e.data
                if kw or len(args) != arity[nm]:
                    ok = False
                    rep.add("calling-convention", "%s: %s called with %d positional and keywords %s" % (a.label, nm, len(args), [k for k, _ in kw]), False, repr(e.data)[:400], where(e.node))
            if ok:
                rep.add("calling-convention", a.label, True, "%d calls" % len(evs))
            if not ok:
                continue
            if meth == "predict":
                same_args(rep, a, evs, {"f": (kw_of(a, "xk"), uk_of(a)), "jacobian_A": (kw_of(a, "xk"), uk_of(a))})
            elif meth == "update":
                same_args(rep, a, evs, {"h": (kw_of(a, "xk"),), "jacobian_H": (kw_of(a, "xk"),)})
            else:
                in_loops(rep, a, evs, cfg, meth)


def kw_of(a, k):
    return ekf_step_args(a.s)[0][k]


def uk_of(a):
    return ite(Node(("none", "uk"), TRUE, FALSE), NONE, kw_of(a, "uk"))


def same_args(rep, a, evs, want):
    for nm, ref in want.items():
        cs = [e for e in evs if e.data[0] == nm]
        if not cs:
            rep.add("same-point", "%s: %s" % (a.label, nm), False, "%s is not called" % nm, a.where())
            continue
        for e in cs:
            for i, (x, w) in enumerate(zip(e.data[1], ref)):
                u = has_unk(x)
                # compare under the gate of the call
                x1, w1 = ite(e.guard, x, BOT), ite(e.guard, w, BOT)
                ok = arg_same(x1, w1)
                inst = "%s: argument %d of %s" % (a.label, i, nm)
                if ok:
                    rep.add("same-point", inst, True, "", where(e.node))
                elif u:
                    rep.add("same-point", inst, None, u, where(e.node))
                else:
                    rep.add("same-point", inst, False, "found: %r\n      given: %r" % (x1, w1), where(e.node))


def arg_same(x, w):
    if isinstance(x, Bot) or isinstance(w, Bot):
        return True
    if isinstance(x, Leaf) and isinstance(w, Leaf):
        if isinstance(x, Num) and isinstance(w, Num):
            return x.p == w.p and (x.shape is None or w.shape is None or len(x.shape) == len(w.shape))
        return x == w
    t = min((y.atom for y in (x, w) if isinstance(y, Node)), key=akey)
    return arg_same(restrict(x, t, True), restrict(w, t, True)) and arg_same(restrict(x, t, False), restrict(w, t, False))


def in_loops(rep, a, evs, cfg, meth):
    """Inside filter and smooth: f and its Jacobian are evaluated at one and the same point of each step."""
    b = refrun("EKF", meth, cfg)
    eq = equal_to(a, a.res, b, b.res)
    if eq:
        rep.add("same-point", a.label, True, "results equal those of one evaluation point per step")
        return
    for nm, other in (("f", "jacobian_A"), ("h", "jacobian_H")):
        for e in [e for e in evs if e.data[0] == nm]:
            inst = "%s: %s at %s" % (a.label, nm, ", ".join(map(repr, e.data[1]))[:200])
            if any(has_unk(x) for x in e.data[1]):
                rep.add("same-point", inst, None, "unknown argument", where(e.node))
                continue
            peers = [o for o in evs if o.data[0] == other and o.loops == e.loops and o.fn == e.fn]
            if not peers:
                # the Jacobian of this step is taken elsewhere; nothing to pair it with
                continue
            if any(all(arg_same(ite(e.guard, x, BOT), ite(e.guard, y, BOT)) for x, y in zip(e.data[1], o.data[1])) for o in peers):
                rep.add("same-point", inst, True, "", where(e.node))
            else:
                rep.add("same-point", inst, False, "%s in the same step is evaluated at %s" % (other, "; ".join(", ".join(map(repr, o.data[1]))[:200] for o in peers)), where(e.node))
        for e in [e for e in evs if e.data[0] in ("f", "jacobian_A")]:
            u = e.data[1][1]
            bad = []
            for l in leaves(u):
                if isinstance(l, Num):
                    if l.p == NANP:
                        continue
                    ls = list(l.p.letters())
                    if len(l.p.m) == 1 and len(l.p.m[0][0]) == 1 and l.p.m[0][1] == 1 and ls[0].op == "el" and ls[0].args[0] == "U" and not ls[0].tr:
                        continue
                    bad.append(l)
                elif not isinstance(l, (Bot, Unk)):
                    bad.append(l)
            if bad:
                rep.add("control-argument", "%s: control passed to %s" % (a.label, e.data[0]), False, "found: %r" % bad[0], where(e.node))


# ---------------------------------------------------------------- C11


def linear_model(control):
    def setup(run):
        it, c = run.it, run.cfg
        A = letter("A", (c.n, c.n))
        B = letter("B", (c.n, c.p))
        H = letter("H", (c.m, c.n))

        def f(it, args, kw):
            ax = it.binop("MatMult", A, args[0], None)
            if not control:
                return ax
            return it.binop("Add", ax, it.binop("MatMult", B, args[1], None), None)

        def h(it, args, kw):
            hx = it.binop("MatMult", H, args[0], None)
            if c.hx == ():
                return it.ap(lambda l: Num(l.p, (), frozenset(), l.dt) if isinstance(l, Num) else l, hx)
            return hx

        it.cbmodel.update(f=f, h=h, jacobian_A=lambda it, a, k: A, jacobian_H=lambda it, a, k: H)

    return setup


class LinKF(Run):
    """The standard filter with constant model arrays."""

    def __init__(self, meth, cfg, control):
        self.control = control
        Run.__init__(self, "KF", None, cfg)
        self.meth, self.label = meth, "KalmanFilter.%s [%s]" % (meth, cfg)
        if self.err:
            return
        s, c = self.s, self.cfg
        A, B, H = letter("A", (c.n, c.n)), letter("B", (c.n, c.p)), letter("H", (c.m, c.n))
        try:
            kw = s.kf_args(B="given")

            def const(name, l):
                q = kw[name]
                return Seq(q.n, l, q.kind, q.owner, q.dt, q.ext)

            kw.update(A=const("A", A), H=const("H", H), B=const("B", B) if control else NONE)
            self.obj = s.new(self.cls, kw)
            pre, upd = s.kf_step_args(False)
            pre.update(Ak=A, Bk=B if control else NONE)
            upd.update(Hk=H)
            self.call(meth, kw=s.zu("given") if meth in ("filter", "smooth") else (pre if meth == "predict" else upd))
        except Unsupported as u:
            self.err = str(u)


def control_given(v):
    """Rewrite a value assuming that no control is entirely NaN."""
    for a in list(atoms_of(v)):
        if a[0] == "all" and a[1][0] == "isnan":
            v = restrict(v, a, False)
    return v


def assume_given(run):
    from .interp import RecDef

    for k, d in list(run.it.recs.items()):
        run.it.recs[k] = RecDef(d.id, d.j, d.T, d.outer, deep_given(d.value), d.node, d.fn)
    return run


def deep_given(v):
    v = control_given(v)

    def f(l):
        if isinstance(l, Seq):
            return Seq(l.n, deep_given(l.body), l.kind, l.owner, l.dt, l.ext)
        if isinstance(l, Tup):
            return Tup([deep_given(x) for x in l.xs], l.names)
        return l

    if isinstance(v, Node):
        return ite(Node(v.atom, TRUE, FALSE), deep_given(v.hi), deep_given(v.lo))
    return f(v)


def c11(rep):
    rep.explanation = "The extended filter is analysed with callbacks bound to f(x,u) = A x + B u, h(x) = H x (and without the control term) and its value graphs are compared with the standard filter's on constant A, B, H."
    rep.min_obl = 8
    for cfg in CFGS:
        for control in (True, False):
            tagc = "with control" if control else "without control"
            for meth in METHODS:
                if meth == "update" and not control:
                    continue
                a = Run("EKF", meth, cfg, U="given", tag="e:", setup=linear_model(control))
                b = LinKF(meth, cfg, control)
                a.label = "%s, linear model %s" % (a.label, tagc)
                rep.saw(a.it)
                rep.saw(b.it)
                if a.err or b.err:
                    rep.add("equals-standard-filter", a.label, None, a.err or b.err, a.where())
                    continue
                va, vb = resolve(a.it, a.res), resolve(b.it, b.res)
                ga = resolve(a.it, a.gains()) if a.gains() is not None else Unk("no gain history")
                gb = resolve(b.it, b.gains()) if b.gains() is not None else Unk("no gain history")
                assume_given(a)
                assume_given(b)
                against(rep, "equals-standard-filter", a, b, deep_given(va), deep_given(vb), "%s()" % meth)
                if meth != "predict":
                    against(rep, "same-gains", a, b, deep_given(ga), deep_given(gb), "gain history")


# ---------------------------------------------------------------- C12


def control_shapes(rep, a):
    """An operand of the wrong shape reached only because the control is left out."""
    for e in a.it.events:
        if e.kind == "shape" and not dead(e) and guard_kind(e.guard) != "unk":
            rep.add("no-exception-for-documented-inputs", "%s: %s in %s" % (a.label, e.data, e.fn), False, "operands of the wrong shape, reached when %r" % (e.guard,), where(e.node))


def c12(rep):
    rep.explanation = "filter and smooth analysed with B and/or U omitted (None) and compared with the reference without control term; the numeric types of all inputs are symbolic, so a marker array whose NaN does not survive a conversion to an input type leaves a residual condition. For the extended filter the control argument of every call of f and its Jacobian must be all-NaN."
    rep.min_obl = 12
    for cfg in CFGS:
        for meth in ("filter", "smooth"):
            for B, U in ((None, "maybe"), ("maybe", None), (None, None)):
                a = Run("KF", meth, cfg, B=B, U=U)
                a.label += " B=%s U=%s" % (B, U)
                b = refrun("KF", meth, cfg, B=None, U=None)
                rep.saw(a.it)
                if a.err is None:
                    exceptions(rep, a)
                    control_shapes(rep, a)
                against(rep, "no-control-term", a, b)
            a = Run("EKF", meth, cfg, U=None)
            a.label += " U=None"
            b = refrun("EKF", meth, cfg, U=None)
            rep.saw(a.it)
            if a.err is not None:
                rep.add("no-control-term", a.label, None, a.err, a.where())
                continue
            exceptions(rep, a)
            for e in a.it.events:
                if e.kind != "callback" or e.data[0] not in ("f", "jacobian_A") or dead(e):
                    continue
                vals = list(e.data[1]) + [v for _, v in e.data[2]]
                inst = "%s: control passed to %s at %s" % (a.label, e.data[0], where(e.node).rsplit(":", 1)[0])
                if len(vals) < 2:
                    rep.add("all-NaN-control", inst, False, "no control argument", where(e.node))
                    continue
                u = ite(e.guard, vals[1], BOT)
                bad = [l for l in leaves(u) if not (isinstance(l, Bot) or isinstance(l, Num) and l.p == NANP)]
                at = [x for x in atoms_of(u) if x[0] == "inexact"]
                unk = has_unk(u)
                if bad and unk:
                    rep.add("all-NaN-control", inst, None, unk, where(e.node))
                elif bad or at:
                    rep.add("all-NaN-control", inst, False, "found: %r" % (u,), where(e.node))
                else:
                    rep.add("all-NaN-control", inst, True, "", where(e.node))
            against(rep, "no-control-term", a, b)


# ---------------------------------------------------------------- C13

ATTRS = {
    "KF": ("A", "B", "H", "Q", "R", "xk", "Pk"),
    "EKF": ("Q", "R", "xk", "Pk", "f", "h", "jacobian_A", "jacobian_H"),
}


def get_attr(run, name):
    def go():
        return run.it.attr(run.obj, name, None)

    try:
        return run.s.frame(go)
    except Unsupported as u:
        return Unk(str(u))


def c13(rep):
    rep.explanation = "Every in-place write reached from the constructors and the four methods is resolved to the arrays it can reach (owner sets propagated through views, transposes, slices, attributes and loop-carried variables); a write that reaches an array supplied by the caller or returned by a user callable is a violation. The model attributes before and after each method have equal values."
    rep.min_obl = 16
    for which in WHICH:
        for cfg in CFGS:
            for meth in METHODS:
                a = Run(which, None, cfg)
                a.meth, a.label = meth, "%s.%s [%s]" % (MODS[which][1], meth, cfg)
                if a.err is not None:
                    rep.add("inputs-untouched", a.label, None, a.err, a.where())
                    continue
                before = {n: get_attr(a, n) for n in ATTRS[which]}
                a.call(meth)
                rep.saw(a.it)
                if a.err is not None:
                    rep.add("inputs-untouched", a.label, None, a.err, a.where())
                    continue
                bad = []
                for e in a.it.events:
                    if dead(e):
                        continue
                    if e.kind == "mutate-token" and e.data[0] in ("ext", "cb"):
                        bad.append((e, "%s %s" % ("input" if e.data[0] == "ext" else "array returned by", e.data[1])))
                    elif e.kind == "opwrite":
                        rep.add("inputs-untouched", "%s: write to unknown object" % a.label, None, repr(e.data)[:200], where(e.node))
                    elif e.kind == "unkwrite":
                        rep.add("inputs-untouched", "%s: write to unknown object" % a.label, None, str(e.data)[:200], where(e.node))
                seen = set()
                for e, what in bad:
                    k = (where(e.node), what)
                    if k in seen:
                        continue
                    seen.add(k)
                    rep.add("inputs-untouched", "%s: %s written in place in %s" % (a.label, what, e.fn), False, "reached when %r" % (e.guard,), where(e.node))
                if not bad:
                    rep.add("inputs-untouched", a.label, True, "%d in-place writes resolved" % sum(e.kind == "mutate-token" for e in a.it.events), a.where())
                for n in ATTRS[which]:
                    after = get_attr(a, n)
                    x, y = before[n], after
                    inst = "%s: attribute %s" % (a.label, n)
                    if x == y:
                        rep.add("model-attributes-kept", inst, True)
                        continue
                    u = has_unk(x) or has_unk(y)
                    if u:
                        rep.add("model-attributes-kept", inst, None, u)
                        continue
                    try:
                        c = compare(a.it, y, a.it, x)
                        st = {"equal": True, "different": False}.get(c.status)
                    except Unsupported:
                        st = None
                    rep.add("model-attributes-kept", inst, st, "" if st else "before: %r\n      after: %r" % (x, y), a.where())
    # values given at construction
    for which in WHICH:
        a = Run(which, None, "vec")
        a.meth = "__init__"
        if a.err is not None:
            continue
        given = a.s.kf_args() if which == "KF" else a.s.ekf_args()
        for n in ATTRS[which]:
            x, y = get_attr(a, n), given[n]
            if which == "KF" and n == "B":
                x, y = (restrict(v, ("none", "B"), False) for v in (x, y))
            inst = "%s(...).%s" % (MODS[which][1], n)
            x, y = resolve(a.it, x), resolve(a.it, y)
            u = has_unk(x)
            if x == y:
                rep.add("attributes-as-given", inst, True)
            elif u:
                rep.add("attributes-as-given", inst, None, u)
            else:
                c = compare(a.it, x, a.it, y)
                st = {"equal": True, "different": False}.get(c.status)
                rep.add("attributes-as-given", inst, st, "" if st else "found: %r\n      given: %r" % (x, y), a.where())


# ---------------------------------------------------------------- C14


def fresh_run(which, meth, cfg):
    r = Run(which, meth, cfg, tag="q:", U="maybe")
    return r


def prep(which, cfg, extra=True):
    """Filter object built in a session whose model arrays are long enough for two series."""
    r = Run(which, None, cfg)
    return r


def history_call(run, meth, pre):
    s = run.s
    s.pre = pre
    try:
        kw = run.kwargs(meth)
    finally:
        s.pre = ""
    return run.call(meth, kw=kw)


class Rename(Rebuild):
    """Rename input letters."""

    def __init__(self, names):
        Rebuild.__init__(self, {}, self._let)
        self.names = names

    def _let(self, l):
        if l.args and isinstance(l.args[0], str) and l.args[0] in self.names and l.op in ("el", "par"):
            return Num(P_let(Let(l.op, (self.names[l.args[0]],) + tuple(l.args[1:]), l.tr, l.sym, l.shape)), l.shape)
        return None

    def leaf(self, v):
        r = Rebuild.leaf(self, v)
        if isinstance(v, Num) and isinstance(r, Num):
            return Num(r.p, v.shape, v.owner, v.dt)
        return r


class Refresh(Rename):
    """The caller's arrays (and views of them) have got new contents; what was computed from them has not."""

    def leaf(self, v):
        if isinstance(v, (Num, Seq)):
            if any(t[0] == "ext" and t[1] in self.names.values() for t in v.owner):
                return Rename.leaf(self, v)
            return v
        if isinstance(v, Tup):
            return Rename.leaf(self, v)
        return v

    def value(self, v):
        if isinstance(v, Node):
            # a test made before stays as it came out
            return ite(Node(v.atom, TRUE, FALSE), self.value(v.hi), self.value(v.lo))
        return self.leaf(v)


def refresh(it, names):
    rn = Refresh(names)
    for i, r in list(it.heap.items()):
        if isinstance(r, EnvR):
            it.heap[i] = dataclass_like(r, vars={k: rn.value(v) for k, v in r.vars.items()})
        elif isinstance(r, InstR):
            it.heap[i] = dataclass_like(r, fields={k: rn.value(v) for k, v in r.fields.items()})
        elif isinstance(r, DictR):
            it.heap[i] = dataclass_like(r, items={k: rn.value(v) for k, v in r.items.items()})
        elif isinstance(r, ListR):
            it.heap[i] = dataclass_like(r, segs=tuple(("one", rn.value(q[1])) if q[0] == "one" else q for q in r.segs))


def dataclass_like(r, **kw):
    q = copy.copy(r)
    for k, v in kw.items():
        object.__setattr__(q, k, v)
    return q


class SharedRun(Run):
    """A call whose arguments are partly the very objects of the call before, possibly with new contents."""

    def __init__(self, which, cfg, first, keep, mutate, meth):
        Run.__init__(self, which, None, cfg)
        self.meth = meth
        if self.err is not None:
            return
        how = "the same %s object%s%s" % (", ".join(sorted(keep)), "s" * (len(keep) > 1), " with new contents" if mutate else "")
        self.label = "%s.%s after %s with %s [%s]" % (MODS[which][1], meth, first, how, cfg)
        s = self.s
        try:
            s.pre, s.same_n = "h0.", True
            try:
                kw = self.kwargs(first)
            finally:
                s.pre, s.same_n = "", False
            now = self.kwargs(first)
            for k in keep:
                kw[k] = Rename({k: "h0." + k}).value(now[k]) if mutate else now[k]
            self.call(first, kw=kw)
            if self.err:
                return
            if mutate:
                refresh(self.it, {"h0." + k: k for k in keep})
        except Unsupported as u:
            self.err = str(u)
            return
        self.p0 = len(self.it.pending)
        self.before = None
        self.call(meth)


def sharings(which, m1, m2):
    """Which arguments two consecutive calls may have in common."""
    steps = dict(predict=["xk", "uk", "Pk", "Qk"] + ["Ak", "Bk"] * (which == "KF"), update=["xk", "Pk", "zk", "Rk"] + ["Hk"] * (which == "KF"))
    both = [a for a in steps.get(m1, ["Z", "U"]) if a in steps.get(m2, ["Z", "U"])]
    if not both:
        return
    for k in both:
        rest = [a for a in both if a != k]
        if rest:
            yield rest, False
        if [k] != rest and len(both) > 2:
            yield [k], False
    yield both, True


class HistRun(Run):
    """Object construction, then a sequence of calls with independent arguments, then one call."""

    def __init__(self, which, cfg, hist, meth, other=None, havoc=None):
        self.other = other

        def setup(run):
            run.s.extra = Aff(0)
            for i in range(len(hist)):
                s = "h%d." % i + "N"
                set_range(s, *LEN())
                run.s.extra = run.s.extra + sym(s)

        Run.__init__(self, which, None, cfg, setup=setup)
        self.meth = meth
        self.hist = hist
        self.label = "%s.%s after %s [%s]" % (MODS[which][1], meth, ", ".join(hist) if hist else "construction", cfg)
        if self.err is not None:
            return
        obj = self.obj
        try:
            if other:
                s = self.s
                s.pre = "o."
                kw = s.kf_args() if which == "KF" else s.ekf_args()
                s.pre = ""
                o2 = s.new(self.cls, kw)
                self.label = "%s.%s after %s on another object [%s]" % (MODS[which][1], meth, ", ".join(hist) or "construction", cfg)
                for i, h in enumerate(hist):
                    self.obj = o2
                    # the other object's series must fit its own model arrays
                    s.pre = "o."
                    kw = self.kwargs(h)
                    s.pre = ""
                    self.call(h, kw=kw)
                    if self.err:
                        return
                self.obj = obj
            else:
                for i, h in enumerate(hist):
                    self.mark = dict(self.it.heap)
                    history_call(self, h, "h%d." % i)
                    if self.err:
                        return
        except Unsupported as u:
            self.err = str(u)
            return
        if havoc:
            self.havoc()
        self.p0 = len(self.it.pending)
        self.before = self.snap_gains()
        self.call(meth)

    def snap_gains(self):
        v = gain_attr(self)
        if v is None or any(isinstance(l, Unk) for l in leaves(v)):
            return None
        return [self.it.heap[l.id].segs if isinstance(l, Ref) and isinstance(self.it.heap[l.id], ListR) else l for l in leaves(v)]

    def havoc(self):
        """Replace whatever the last call changed by arbitrary values."""
        it = self.it
        drv = it.frames[0]["env"] if it.frames else None
        self.havocked = []
        gl = [l.id for l in leaves(self.gains())] if self.gains() is not None and all(isinstance(l, Ref) for l in leaves(self.gains())) else []
        live = self.persistent(drv)
        for loc in it.locs(self.mark, it.heap):
            if loc[1] == drv or loc[1] not in live:
                continue
            r = it.heap[loc[1]]
            if loc[0] in ("env", "inst", "dict"):
                old, new = it.get(self.mark, loc), it.get(it.heap, loc)
                name = "havoc:%s" % (loc[2],)
                if loc[0] == "inst" and all(isinstance(l, Ref) for l in leaves(new)) and [l.id for l in leaves(new)] == gl:
                    continue
                it.put(loc, arbitrary(name, new, old))
                self.havocked.append(str(loc[2]))
            elif loc[0] == "list":
                if loc[1] in gl:
                    it.heap[loc[1]] = ListR([("prior", "havoc:G")], r.birth, r.shared, r.kind)
                else:
                    it.heap[loc[1]] = ListR([("prior", "havoc:list%d" % loc[1])], r.birth, r.shared, r.kind)
                    self.havocked.append("list")
            elif loc[0] == "arr":
                it.heap[loc[1]] = ArrR(r.n, Num(P_let(Let("np", ("havoc:arr%d" % loc[1], sym(IOTA)), False, False, r.row)), r.row), r.row, r.dt, r.birth, r.shared, r.kind)
                self.havocked.append("array")

    def persistent(self, drv):
        """Heap objects reachable from the filter object, modules and classes."""
        it = self.it
        todo = [e for e in it.modenv.values()] + [c.env for c in it.classes.values() if c.env] + [self.obj.id]
        for fi in it.funcs.values():
            for d in list(fi.defaults) + [x for x in fi.kwdefaults if x is not None]:
                todo += refs_in(d)
            if fi.env is not None:
                todo.append(fi.env)
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen or k not in it.heap or k == drv:
                continue
            seen.add(k)
            todo += record_refs(it.heap[k])
        return seen


def refs_in(v, out=None):
    out = [] if out is None else out
    for l in leaves(v):
        if isinstance(l, Ref):
            out.append(l.id)
        elif isinstance(l, Tup):
            for x in l.xs:
                refs_in(x, out)
        elif isinstance(l, Seq):
            refs_in(l.body, out)
            for t in l.owner:
                if t[0] == "arr":
                    out.append(t[1])
        elif isinstance(l, Num):
            for t in l.owner:
                if t[0] == "row":
                    out.append(t[1])
        elif isinstance(l, Fun) and l.kind == "bound" and isinstance(l.data[1], Ref):
            out.append(l.data[1].id)
        elif isinstance(l, Fun) and l.kind == "partial":
            for x in l.data[1]:
                refs_in(x, out)
    return out


def record_refs(r):
    out = []
    if isinstance(r, EnvR):
        for v in r.vars.values():
            refs_in(v, out)
        if r.parent is not None:
            out.append(r.parent)
    elif isinstance(r, InstR):
        for v in r.fields.values():
            refs_in(v, out)
    elif isinstance(r, DictR):
        for v in r.items.values():
            refs_in(v, out)
    elif isinstance(r, ListR):
        for s in r.segs:
            if s[0] == "one":
                refs_in(s[1], out)
            elif s[0] == "run":
                refs_in(s[2], out)
            elif s[0] == "alt":
                for q in s[2]:
                    if q[0] in ("one",):
                        refs_in(q[1], out)
    elif isinstance(r, ArrR):
        refs_in(r.body, out)
    return out


def arbitrary(name, new, old):
    """An arbitrary value of the kind the location may hold."""
    kinds = [l for l in leaves(new) + leaves(old) if not isinstance(l, Bot)]
    nums = [l for l in kinds if isinstance(l, Num)]
    none = any(isinstance(l, C) and l.v is None for l in kinds)
    if nums and all(isinstance(l, Num) or isinstance(l, C) and l.v is None for l in kinds):
        v = Num(P_let(Let("par", (name,), False, False, nums[0].shape)), nums[0].shape, frozenset([("fresh", -1)]) if nums[0].shape != () else frozenset(), nums[0].dt)
        return ite(Node(("none", name), TRUE, FALSE), NONE, v) if none else v
    if kinds and all(isinstance(l, C) and isinstance(l.v, bool) for l in kinds):
        return Node(("havoc", name), TRUE, FALSE)
    if kinds and all(isinstance(l, IntL) for l in kinds):
        set_range("havoc:" + name, None, None)
        return IntL(sym("havoc:" + name))
    if kinds and all(isinstance(l, (Ref, C)) for l in kinds):
        return new
    return Op(("havoc", name))


def mentions(v, pref):
    return pref in repr(v)


def c14(rep):
    rep.explanation = "For every ordered pair of methods the second is analysed after the first (with independent arguments) with every location the first call wrote, except the gain history, replaced by an arbitrary value; its result must have the normal form of the result on a new object, which covers every history. Where it does not, concrete histories of one and two calls decide. The same with the history on another object, together with that object's gain history."
    rep.min_obl = 16
    cfgs = CFGS if rep.tier == "thorough" else ("vec",)
    for which in WHICH:
        for cfg in cfgs:
            base = {}
            for m2 in METHODS:
                base[m2] = fresh_run(which, m2, cfg)
            for m1 in METHODS:
                for m2 in METHODS:
                    f = base[m2]
                    a = HistRun(which, cfg, [m1], m2, havoc=True)
                    rep.saw(a.it)
                    st, why = same_result(a, f)
                    label = a.label.replace("after " + m1, "after any history ending in " + m1)
                    if st is True:
                        rep.add("history-independent", label, True, "written locations: %s" % ", ".join(sorted(set(a.havocked))), a.where())
                        continue
                    # concrete histories
                    done = False
                    for hist in [[m1]] + [[m0, m1] for m0 in METHODS] + [[m1, m1, m1]]:
                        c = HistRun(which, cfg, hist, m2)
                        s2, w2 = same_result(c, f)
                        if s2 is False:
                            rep.add("history-independent", c.label, False, w2, c.where())
                            done = True
                            break
                    for keep, mut in [] if done else sharings(which, m1, m2):
                        c = SharedRun(which, cfg, m1, keep, mut, m2)
                        s2, w2 = same_result(c, f)
                        if s2 is False:
                            rep.add("history-independent", c.label, False, w2, c.where())
                            done = True
                            break
                    if not done:
                        rep.add("history-independent", label, None, "depends on state left by earlier calls (%s), but no short history changes the result: %s" % (", ".join(sorted(set(getattr(a, "havocked", [])))), why), a.where())
            for m1 in (None, "filter", "smooth") if rep.tier != "thorough" else (None,) + METHODS:
                for m2 in METHODS:
                    a = HistRun(which, cfg, [m1] if m1 else [], m2, other=True)
                    rep.saw(a.it)
                    st, why = same_result(a, base[m2])
                    rep.add("object-independent", a.label, st, why, a.where())
                    if a.err is None and m2 == "predict":
                        g = a.before
                        ok = g is not None and all(isinstance(x, tuple) and len(x) == 0 for x in g)
                        opq = g is None or any(not isinstance(x, tuple) for x in g)
                        rep.add("gain-history-not-shared", a.label, True if ok else (None if opq else False), "" if ok else "gain history of an unused filter object: %r" % (g,), a.where())


def recognised(conds):
    """Some condition says that an argument equals one of an earlier call: the letters of the two calls are not independent then."""
    for a, v in conds:
        t = repr(a)
        if v and re.search(r"\bh\d\.", t) and re.search(r"(?<![\w.])(Z|U|[AHBQR]k|xk|Pk|zk|uk)\b", t) and re.search(r"Eq|array_equal|call:id|'is'|hash|tobytes|'in'", t):
            return True
    return False


def same_result(a, f):
    if a.err is not None or f.err is not None:
        return None, a.err or f.err
    for g, et, node, why, explicit, loops in a.it.pending[a.p0:]:
        if "havoc" in repr(g):
            return None, "%s raised depending on earlier calls" % et
        if guard_kind(g) == "data" and not any(et == q[1] for q in f.it.pending):
            return False, "%s raised at %s when %r" % (et, where(node) if node is not None else "?", g)
    try:
        c = compare(a.it, a.res, f.it, f.res)
    except Unsupported as u:
        return None, str(u)
    if c.status == "equal":
        return True, ""
    if c.status == "different":
        if any("havoc" in repr(d.a) or "havoc" in repr(d.conds) for d in c.diffs):
            return None, "\n".join(d.text("after", "new object") for d in c.diffs[:2])
        ds = [d for d in c.diffs if not recognised(d.conds)]
        if not ds:
            return None, "differs only where the arguments are found equal to earlier ones:\n" + c.diffs[0].text("after", "new object")
        return False, "\n".join(d.text("after", "new object") for d in ds[:3])
    return None, c.why


# ---------------------------------------------------------------- C15


def put_prior(run):
    """Replace the contents of the gain history by an unknown earlier content."""
    v = run.gains()
    ls = leaves(v) if v is not None else []
    if len(ls) == 1 and isinstance(ls[0], Ref) and isinstance(run.it.heap[ls[0].id], ListR):
        r = run.it.heap[ls[0].id]
        run.it.heap[ls[0].id] = ListR([("prior", "G")], r.birth, r.shared, r.kind)
        return True
    return False


def gain_attr(run):
    v = run.gains()
    return v if v is not None else get_attr(run, "kalman_gains")


DROPPING = ("pop", "popleft", "remove", "del", "sort", "reverse", "item store", "bounded", "insert")


def lossy(rep, a):
    """The gain history is not 'earlier content plus one entry per update': an entry is added only when a
    condition on the data or on the position holds, or entries are dropped, replaced or moved.  Only for a
    list the comparison cannot resolve."""
    v = gain_attr(a)
    ls = leaves(v) if v is not None else []
    if len(ls) != 1 or not isinstance(ls[0], Ref):
        return False
    r = a.it.heap[ls[0].id]
    if not isinstance(r, ListR) or a.it.list_len(r) is not None:
        return False
    own = [e for e in a.it.events if e.kind == "listop" and e.data[1] == ls[0].id and not dead(e)]
    if any(s[0] == "opaque" for s in r.segs):
        for e in own:
            if e.data[0] in DROPPING and guard_kind(e.guard) == "data":
                rep.add("gain-history", a.label + " gain history", False, "entries are dropped, replaced or moved: %s at %s" % (e.data[0], where(e.node)), where(e.node))
                return True
        return False
    cond = []
    for s in r.segs:
        if s[0] == "alt" and all(q[0] == "one" for q in s[2]):
            cond.append(s[1])
        elif s[0] == "multi":
            cond += [d[2] for d in s[2] if d[0] == "opq" and len(d) > 2]
            if any(d[0] == "opq" and len(d) == 2 for d in s[2]):
                return False
        elif s[0] not in ("one", "run", "prior"):
            return False
    if len(cond) == 1 and guard_kind(cond[0]) == "data":
        w = where(own[-1].node) if own else a.where()
        rep.add("gain-history", a.label + " gain history", False, "an update leaves no entry unless %r" % (cond[0],), w)
        return True
    return False


def c15(rep):
    rep.explanation = "The gain history is tracked as a symbolic sequence starting from an arbitrary earlier content: empty after construction; the earlier content followed by exactly one gain after update, by nothing after predict, by one gain per observation in time order after filter and smooth, equal to the gains of the reference recursion."
    rep.min_obl = 16
    set_range("len:G", Aff(0), None)
    for which in WHICH:
        for cfg in CFGS:
            for meth in METHODS:
                a = Run(which, None, cfg)
                b = Run(which, None, cfg, ref=True)
                set_range("len:G", Aff(0), None)
                a.meth, a.label = meth, "%s.%s [%s]" % (MODS[which][1], meth, cfg)
                if a.err is not None:
                    rep.add("gain-history", a.label, None, a.err, a.where())
                    continue
                if meth == "predict":
                    g = gain_attr(a)
                    r = resolve(a.it, g)
                    if isinstance(r, Seq) and r.n is not None:
                        rep.add("empty-at-construction", a.label, r.n == Aff(0), "history of length %r" % (r.n,), a.where())
                    elif isinstance(r, Unk):
                        rep.add("empty-at-construction", a.label, None, r.why, a.where())
                    else:
                        rep.add("empty-at-construction", a.label, False, "history is %r" % (r,), a.where())
                pa, pb = put_prior(a), put_prior(b)
                if not pa:
                    # no list to start from: start from the empty history on both sides
                    b = Run(which, None, cfg, ref=True)
                a.call(meth)
                b.call(meth)
                rep.saw(a.it)
                if a.err is not None:
                    rep.add("gain-history", a.label, None, a.err, a.where())
                    continue
                if lossy(rep, a):
                    continue
                against(rep, "gain-history", a, b, gain_attr(a), b.gains(), "gain history", a.label + " gain history")
    # the gain an update used is the one it recorded: coefficient of the observation in the mean
    if rep.tier == "thorough":
        for which in WHICH:
            seq = ("update", "filter", "predict", "smooth", "update")
            a, b = HistRun(which, "vec", list(seq[:-1]), seq[-1]), RefHist(which, "vec", list(seq[:-1]), seq[-1])
            rep.saw(a.it)
            if a.err:
                rep.add("gain-history", a.label, None, a.err, a.where())
            else:
                against(rep, "gain-history", a, b, gain_attr(a), b.gains(), "gain history", a.label + " gain history")


class RefHist(Run):
    def __init__(self, which, cfg, hist, meth):
        def setup(run):
            for i in range(len(hist)):
                s = "h%d." % i + "N"
                set_range(s, *LEN())
                run.s.extra = run.s.extra + sym(s)

        Run.__init__(self, which, None, cfg, ref=True, setup=setup)
        for i, h in enumerate(hist):
            history_call(self, h, "h%d." % i)
        self.call(meth)


# ---------------------------------------------------------------- C16


def c16(rep):
    rep.explanation = "The two arrays returned by filter and smooth are resolved to their allocation sites: allocated during the call, reachable from no filter attribute, module or class afterwards, owning no memory of an input, with float64 element type independent of the input types, N rows of shape (n,) and (n, n), and no row left at its allocation value."
    rep.min_obl = 8
    for which in WHICH:
        for cfg in CFGS:
            for meth in ("filter", "smooth"):
                a = Run(which, None, cfg)
                a.meth, a.label = meth, "%s.%s [%s]" % (MODS[which][1], meth, cfg)
                if a.err is not None:
                    rep.add("fresh", a.label, None, a.err, a.where())
                    continue
                nid, tok = a.it.nid, a.it.tok
                a.call(meth)
                rep.saw(a.it)
                if a.err is not None:
                    rep.add("fresh", a.label, None, a.err, a.where())
                    continue
                shape_of_result(rep, a, nid, tok)


def shape_of_result(rep, a, nid, tok):
    it, c = a.it, a.cfg
    rows = ((c.n,), (c.n, c.n))
    live = HistRun.persistent(a, it.frames[0]["env"])
    toks = live_tokens(it, live)
    w = a.where()
    for l in leaves(a.res):
        if isinstance(l, Bot):
            continue
        if isinstance(l, Unk):
            rep.add("pair", a.label, None, l.why, w)
            continue
        if not isinstance(l, Tup) or len(l.xs) != 2:
            rep.add("pair", a.label, False, "returns %r" % (l,), w)
            continue
        rep.add("pair", a.label, True, "", w)
        for i, x in enumerate(l.xs):
            inst = "%s result %d" % (a.label, i)
            for y in leaves(x):
                one_array(rep, a, inst, y, rows[i], nid, tok, live, toks, w)


def live_tokens(it, live):
    out = set()

    def val(v):
        for l in leaves(v):
            if isinstance(l, (Num, Seq)):
                out.update(t for t in l.owner)
            if isinstance(l, Seq):
                val(l.body)
            if isinstance(l, Tup):
                for x in l.xs:
                    val(x)

    for k in live:
        r = it.heap[k]
        if isinstance(r, EnvR):
            for v in r.vars.values():
                val(v)
        elif isinstance(r, InstR):
            for v in r.fields.values():
                val(v)
        elif isinstance(r, DictR):
            for v in r.items.values():
                val(v)
        elif isinstance(r, ListR):
            for s in r.segs:
                if s[0] in ("one", "run"):
                    val(s[-1])
    return out


def one_array(rep, a, inst, y, row, nid, tok, live, toks, w):
    it = a.it
    if isinstance(y, Bot):
        return
    if isinstance(y, Unk):
        rep.add("fresh", inst, None, y.why, w)
        return
    if isinstance(y, Ref):
        r = it.heap[y.id]
        if isinstance(r, ListR):
            rep.add("array", inst, False, "returns a list", w)
            return
        if not isinstance(r, ArrR):
            rep.add("array", inst, False, "returns %r" % type(r).__name__, w)
            return
        if r.kind != "array":
            rep.add("array", inst, False, "returns a list", w)
            return
        rep.add("array", inst, True, "", w)
        if y.id <= nid:
            rep.add("fresh", inst, False, "array allocated before the call", w)
        elif y.id in live:
            rep.add("fresh", inst, False, "array still referenced by the filter object, a module or a class after the call", w)
        else:
            rep.add("fresh", inst, True, "", w)
        n, body, dt, rw = r.n, r.body, r.dt, r.row
    elif isinstance(y, Seq):
        rep.add("array", inst, y.kind == "array", "returns a list", w)
        bad = [t for t in y.owner if t[0] in ("ext", "cb") or t[0] == "arr" and (t[1] <= nid or t[1] in live) or t[0] == "fresh" and t in toks]
        unk = not y.owner
        if bad:
            rep.add("fresh", inst, False, "shares memory with %r" % (bad[0],), w)
        else:
            rep.add("fresh", inst, None if unk else True, "memory owner not known" if unk else "", w)
        n, body, dt, rw = y.n, y.body, y.dt, None
    elif isinstance(y, Num):
        flat = y.shape is not None and len(y.shape) < 1 + len(row)
        rep.add("array", inst, False if flat else None, "result %r%s" % (y, " of shape %r, without an axis for the observations" % (y.shape,) if flat else ""), w)
        return
    else:
        rep.add("array", inst, False, "returns %r" % (y,), w)
        return
    if n is None:
        rep.add("one-row-per-observation", inst, None, "length not known", w)
    else:
        rep.add("one-row-per-observation", inst, n == N, "length %r" % (n,), w)
    # element type
    if dt == "f8":
        rep.add("double-precision", inst, True, "", w)
    elif dt is None:
        rep.add("double-precision", inst, None, "element type not known", w)
    else:
        rep.add("double-precision", inst, False, "element type depends on the inputs: %r" % (dt,), w)
    if rw is None:
        for l in leaves(body):
            if isinstance(l, Num) and l.shape is not None:
                rw = l.shape
                break
    if rw is None:
        rep.add("row-shape", inst, None, "row shape not known", w)
    else:
        rep.add("row-shape", inst, len(rw) == len(row) and all(aff(x) == aff(z) for x, z in zip(rw, row)), "rows of shape %r" % (rw,), w)
    # rows never written
    with Ranges(**{IOTA: (Aff(0), N - 1)}):
        b = subst(body, {IOTA: sym(IOTA)})
        left = [o for l, o in live_leaves(b, conditions=True) if isinstance(l, Num) and (l.p.is_zero() or any(x.op == "np" and x.args[0] == "uninitialised" for x in l.p.letters()))]
    u = has_unk(b) or ("how often a loop runs is not known" if left and all(left) else None)
    if left and not all(left):
        rep.add("every-row-written", inst, False, "rows keep their initial value: %r" % (b,), w)
    else:
        rep.add("every-row-written", inst, None if u else True, u or "", w)


# ---------------------------------------------------------------- C17


def analysed(run):
    """Reason why a run gives no result, or None."""
    return run.err


def decide(rep, rule, inst, run, fn, fallback=None):
    """Run an analysis that returns nothing, raises Found or Unsure; equality with the reference settles the rest."""
    if run.err is not None:
        rep.add(rule, inst, None, run.err, run.where())
        return
    try:
        fn()
    except Found as e:
        if fallback is not None and fallback():
            rep.add(rule, inst, True, "equal to the reference", run.where())
            return
        rep.add(rule, inst, False, str(e), run.where())
        return
    except (Unsure, Unsupported) as e:
        if fallback is not None and fallback():
            rep.add(rule, inst, True, "equal to the reference", run.where())
            return
        rep.add(rule, inst, None, str(e), run.where())
        return
    rep.add(rule, inst, True, "", run.where())


def c17(rep):
    rep.explanation = "Index analysis of the value graphs of filter(): for every row of the result the largest position of the series (observations, controls, model arrays) it reads, through the recurrences, relative to its own step; and every gate on or use of the series length."
    rep.min_obl = 4
    for which in WHICH:
        for cfg in CFGS:
            a = Run(which, "filter", cfg)
            rep.saw(a.it)
            for i, nm in enumerate(("means", "covariances")):
                def fn(i=i):
                    LookAhead(a.it, item(a, a.res, i)).check()

                def fb(i=i):
                    b = refrun(which, "filter", cfg)
                    return equal_to(a, item(a, a.res, i), b, item(b, b.res, i))

                decide(rep, "no-look-ahead", "%s %s" % (a.label, nm), a, fn, fb)
            if rep.tier == "thorough":
                def fg():
                    LookAhead(a.it, a.gains()).check()

                decide(rep, "no-look-ahead", "%s gains" % a.label, a, fg)


# ---------------------------------------------------------------- C18

NOTCOV = ("Z", "U", "B", "x0", "zk", "uk", "Bk", "xk")


def c18(rep):
    rep.explanation = "Dependence closure (through recurrences, conditions and arguments of every function) of the covariances and gains of the standard filter: it must contain no observation, control, control matrix or mean."
    rep.min_obl = 8
    for cfg in CFGS:
        for meth in METHODS:
            a = Run("KF", meth, cfg)
            rep.saw(a.it)
            b = refrun("KF", meth, cfg)

            def fn():
                w = has_unk(resolve(a.it, item(a, a.res, 1)))
                if w:
                    raise Unsure(w)
                d = closure_letters(a.it, [resolve(a.it, item(a, a.res, 1))], NOTCOV)
                if d:
                    raise Found("the covariance depends on %s" % d)

            decide(rep, "covariance-data-free", a.label, a, fn, lambda: equal_to(a, item(a, a.res, 1), b, item(b, b.res, 1)))
            if meth == "predict":
                continue

            def fg():
                g = resolve(a.it, gain_attr(a))
                w = has_unk(g)
                if w:
                    raise Unsure(w)
                d = closure_letters(a.it, [g], NOTCOV)
                if d:
                    raise Found("the gains depend on %s" % d)

            decide(rep, "gains-data-free", a.label, a, fg, lambda: equal_to(a, gain_attr(a), b, b.gains()))


# ---------------------------------------------------------------- C19


def c19(rep):
    rep.explanation = "Every covariance returned by predict, update, filter and smooth is compared with its own transpose (greatest fixpoint of symmetric recurrences, P, Q, R and P0 symmetric). For update, prior minus posterior covariance is decomposed into products M S^-1 M' with positive coefficients."
    rep.min_obl = 16
    for which in WHICH:
        for cfg in CFGS:
            for meth in METHODS:
                a = Run(which, meth, cfg)
                rep.saw(a.it)
                b = refrun(which, meth, cfg)

                def fn():
                    v = resolve(a.it, item(a, a.res, 1))
                    w = has_unk(v)
                    if w:
                        raise Unsure(w)
                    s = System(a.it)
                    rids = s.reach([v])
                    for r in rids:
                        w = has_unk(s.recs[r].value)
                        if w:
                            raise Unsure(w)
                    s.find_sym(rids)
                    symmetric(s, s.canon(v))

                decide(rep, "symmetric", a.label, a, fn, lambda: equal_to(a, item(a, a.res, 1), b, item(b, b.res, 1)))
            a = Run(which, "update", cfg)
            b = refrun(which, "update", cfg)

            def fu():
                prior = ekf_step_args(a.s)[1]["Pk"]
                for l in leaves(item(a, a.res, 1)):
                    shrinks(l, prior, innovation(b))

            decide(rep, "update-reduces", a.label, a, fu, lambda: equal_to(a, item(a, a.res, 1), b, item(b, b.res, 1)))


def symmetric(s, v):
    for l in leaves(v):
        if isinstance(l, Seq):
            if l.n is None:
                raise Unsure("length not known")
            with Ranges(**{IOTA: (Aff(0), l.n - 1)}):
                symmetric(s, l.body)
        elif isinstance(l, Num):
            if l.p != NANP and P_T(l.p) != l.p:
                raise Found("not symmetric: %s" % repr(l)[:600])
        elif isinstance(l, Unk):
            raise Unsure(l.why)
        elif not isinstance(l, Bot):
            raise Unsure("value %r" % (l,))


def innovation(b):
    """Letter inv(S) of the reference update."""
    out = set()
    for l in leaves(last_gain(b)):
        if isinstance(l, Num):
            out |= {x for x in l.p.letters() if x.op == "inv"}
    if len(out) != 1:
        raise AnalysisBroken("reference innovation covariance")
    return next(iter(out))


def shrinks(l, prior, si):
    if isinstance(l, Bot):
        return
    if isinstance(l, Unk):
        raise Unsure(l.why)
    if not isinstance(l, Num):
        raise Unsure("value %r" % (l,))
    d = P_add(prior.p, l.p, -1)
    rest = []
    diag = {}
    for w, c in d.m:
        k = [i for i, x in enumerate(w) if x == si]
        left = w[: k[0]] if len(k) == 1 else None
        if left is not None and w[k[0] + 1 :] == tuple(x.T() for x in reversed(left)):
            diag[left] = c
            if c < 0:
                raise Found("the update adds %s" % Poly({w: -c}))
        else:
            rest.append((w, c))
    if not rest:
        return
    # cross terms left·S^-1·right' : the coefficient matrix over the outer factors must be positive semi-definite
    for w, c in rest:
        k = [i for i, x in enumerate(w) if x == si]
        if len(k) != 1:
            if tuple(x.T() for x in reversed(w)) == w and c < 0 and not any(v > 0 and len(q) and False for q, v in d.m):
                raise Found("the update adds %s to the covariance" % Poly({w: -c}))
            raise Unsure("decrease of the covariance %s is not of the form M S^-1 M'" % repr(d)[:400])
    keys = sorted({w[: [i for i, x in enumerate(w) if x == si][0]] for w, _ in d.m} | {tuple(x.T() for x in reversed(w[[i for i, x in enumerate(w) if x == si][0] + 1 :])) for w, _ in d.m}, key=repr)
    M = [[Fraction(0)] * len(keys) for _ in keys]
    for w, c in d.m:
        k = [i for i, x in enumerate(w) if x == si][0]
        M[keys.index(w[:k])][keys.index(tuple(x.T() for x in reversed(w[k + 1 :])))] += c
    if any(M[i][j] != M[j][i] for i in range(len(keys)) for j in range(len(keys))):
        raise Found("decrease of the covariance is not symmetric")
    if not psd(M):
        raise Found("the update can add uncertainty: decrease of the covariance is %s" % repr(d)[:400])


def psd(M):
    """Positive semi-definiteness of a rational matrix by elimination."""
    M = [r[:] for r in M]
    n = len(M)
    for i in range(n):
        if M[i][i] < 0:
            return False
        if M[i][i] == 0:
            if any(M[i][j] != 0 for j in range(i, n)):
                return False
            continue
        for j in range(i + 1, n):
            q = M[j][i] / M[i][i]
            for k in range(i, n):
                M[j][k] -= q * M[i][k]
    return True


# ---------------------------------------------------------------- C20


def c20(rep):
    rep.explanation = "Shape inference with symbolic, distinct dimensions n, m, p over every operation reached from the constructors and the four methods, for vector and scalar observations: every matrix product, sum, solve and row store conforms, nothing raises, and the results have the state's shape."
    rep.min_obl = 16
    rows = ((n_, ), (n_, n_))
    for which in WHICH:
        for cfg in CFGS:
            for meth in METHODS:
                a = Run(which, meth, cfg)
                rep.saw(a.it)
                if a.err is not None:
                    rep.add("conformable", a.label, None, a.err, a.where())
                    continue
                exceptions(rep, a)
                bad = [e for e in a.it.events if e.kind == "shape" and not dead(e)]
                unk = [e for e in a.it.events if e.kind == "unkshape" and not dead(e)]
                for e in bad[:6]:
                    rep.add("conformable", "%s: %s in %s" % (a.label, e.data, e.fn), None if guard_kind(e.guard) == "unk" else False, "reached when %r" % (e.guard,), where(e.node))
                for e in unk[:3]:
                    rep.add("conformable", "%s: unknown shape in %s" % (a.label, e.fn), None, repr(e.data)[:300], where(e.node))
                if not bad and not unk:
                    rep.add("conformable", a.label, True, "", a.where())
                for i in (0, 1):
                    v = resolve(a.it, item(a, a.res, i))
                    want = rows[i]
                    for l in leaves(v):
                        if isinstance(l, Bot):
                            continue
                        inst = "%s result %d" % (a.label, i)
                        if isinstance(l, Seq):
                            ls = [x for x in leaves(l.body) if isinstance(x, Num)]
                            sh = next((x.shape for x in ls if x.shape is not None), None)
                            if isinstance(l.body, (Num, Node)) and any(x.shape is not None and not same_shape(x.shape, want) for x in ls):
                                sh = next(x.shape for x in ls if x.shape is not None and not same_shape(x.shape, want))
                        elif isinstance(l, Num):
                            if l.p == NANP and l.shape is None:
                                continue
                            sh = l.shape
                        else:
                            rep.add("result-shape", inst, None, "value %r" % (l,), a.where())
                            continue
                        if sh is None:
                            rep.add("result-shape", inst, None, "shape not known", a.where())
                        else:
                            rep.add("result-shape", inst, same_shape(sh, want), "shape %r, expected %r" % (sh, want), a.where())


def same_shape(a, b):
    return len(a) == len(b) and all(aff(x) == aff(y) for x, y in zip(a, b))


# ---------------------------------------------------------------- C21

CATCHES_SINGULAR = {"LinAlgError", "ValueError", "Exception", "BaseException"}


def c21(rep):
    rep.explanation = "For every exception handler and suppressing context reached from the four methods: the calls of user functions and the linear solves it encloses (through calls), the types it catches and whether every path through it raises. Every solve that feeds a result must be one that raises on a singular matrix, applied to the innovation or predicted covariance itself and not guarded by the data."
    rep.min_obl = 8
    for which in WHICH:
        for cfg in CFGS:
            for meth in METHODS:
                a = Run(which, meth, cfg)
                rep.saw(a.it)
                if a.err is not None:
                    rep.add("propagates", a.label, None, a.err, a.where())
                    continue
                n = len(rep.obls)
                swallowing(rep, a)
                solves(rep, a, which, meth, cfg)
                if len(rep.obls) == n:
                    rep.add("propagates", a.label, True, "%d solves, %d calls of user functions" % (sum(e.kind == "solve" for e in a.it.events), sum(e.kind == "callback" for e in a.it.events)), a.where())


def swallowing(rep, a):
    for e in a.it.events:
        if e.kind != "handler" or dead(e):
            continue
        types, re_, covered = e.data
        if re_:
            continue
        for c in covered:
            if dead(c):
                continue
            if c.kind == "callback":
                what = "user function %s" % c.data[0]
                hit = True
            elif c.kind == "solve":
                what = "a singular matrix"
                hit = bool(set(types) & CATCHES_SINGULAR)
            else:
                continue
            if hit:
                rep.add("propagates", "%s: %s around %s" % (a.label, "/".join(types), what), False, "an exception from %s (%s) is caught in %s and does not reach the caller" % (what, where(c.node), e.fn), where(e.node))
                break
    for fi in reached(a.it):
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Try) and n.finalbody:
                for st in n.finalbody:
                    for x in ast.walk(st):
                        if isinstance(x, (ast.Return, ast.Break, ast.Continue)):
                            rep.add("propagates", "%s: %s in finally" % (a.label, type(x).__name__), False, "leaving a finally block drops the exception in flight", where(x))


def reached(it):
    keys = {(m, ln) for m, q, ln in it.analysed}
    return [fi for fi in it.funcs.values() if (fi.mod.name, getattr(fi.node, "lineno", 0)) in keys] if hasattr(it.funcs, "values") else [fi for fi in it.funcs if (fi.mod.name, getattr(fi.node, "lineno", 0)) in keys]


def norm_S(p):
    """A matrix up to transposition and scale."""
    if not p.m:
        return p
    q = P_scale(p, 1 / p.m[0][1])
    t = P_T(q)
    return q if repr(q) <= repr(t) else t


def solves(rep, a, which, meth, cfg):
    evs = [e for e in a.it.events if e.kind == "solve" and not dead(e)]
    b = refrun(which, meth, cfg)
    want = {norm_S(e.data[1]) for e in b.it.events if e.kind == "solve"}
    forms = {anon(w) for w in want} | {anon(P_T(w)) for w in want}
    for e in evs:
        kind, p = e.data
        inst = "%s: %s of %s" % (a.label, kind, repr(p)[:160])
        if kind in ("pinv", "lstsq"):
            rep.add("raises-when-singular", inst, False, "%s gives a result for a singular matrix" % kind, where(e.node))
        elif kind == "divide" and in_result(a, p):
            rep.add("raises-when-singular", inst, False, "a division gives inf or NaN for a singular (zero) covariance instead of raising", where(e.node))
        else:
            c = dict(p.m).get(())
            if c is not None and anon(P_add(p, Poly({(): c}), -1)) in forms:
                rep.add("raises-when-singular", inst, False, "a multiple of the identity is added before solving, so a singular matrix passes", where(e.node))
            elif data_gate(e.guard):
                if not covered_gate(evs, e):
                    rep.add("raises-when-singular", inst, False, "solved only when %r; otherwise an estimate is returned without it" % (e.guard,), where(e.node))
    if meth in ("update", "filter", "smooth") and not evs:
        rep.add("raises-when-singular", a.label, None, "no solve found", a.where())


def anon(p):
    """A matrix up to scale and the names of loop-carried values."""
    if not p.m:
        return ()
    k = p.m[-1][1]
    def al(l):
        if l.op == "rec":
            return ("rec",)
        return (l.op, l.args[0] if l.op in ("el", "par", "app") else "", l.tr)
    return tuple(sorted((tuple(al(l) for l in w), c / k) for w, c in p.m))


def data_gate(g):
    for x in atoms_of(g):
        if x[0] in ("none", "eq0", "ge0", "unk", "inexact"):
            continue
        if x[0] == "all" and isinstance(x[1], tuple) and x[1][0] == "isnan":
            continue
        return True
    return False


def covered_gate(evs, e):
    g = FALSE
    for o in evs:
        if o.loops == e.loops and norm_S(o.data[1]) == norm_S(e.data[1]):
            g = b_or(g, o.guard)
    return not data_gate(g)


def in_result(a, p):
    """Whether the inverse of p is part of a result."""
    q = norm_S(p)
    for v in [a.res, gain_attr(a)] + [d.value for d in a.it.recs.values()]:
        for x, _ in walk(resolve(a.it, v) if v is not None else TRUE):
            if isinstance(x, Let) and x.op == "inv" and norm_S(x.args[0]) == q:
                return True
    return False


# ---------------------------------------------------------------- C22

PURE_EXT = {"warnings.catch_warnings"}
SURE_IO = ("print", "open", "input", "numpy.", "os.environ", "os.getenv", "os.putenv", "os.system", "os.remove", "os.mkdir", "os.getcwd", "os.chdir", "os.listdir", "os.stat", "os.urandom", "os.getpid", "sys.stdout", "sys.stderr", "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.exit", "subprocess.", "tempfile.", "shutil.", "socket.", "signal.", "gc.", "atexit.", "pathlib.", "io.", "random.", "time.")
CLOCKS = {"now", "today", "utcnow", "time", "perf_counter", "monotonic", "process_time", "time_ns", "perf_counter_ns", "sleep", "monotonic_ns", "ctime", "localtime", "gmtime", "strftime"}


def numerical(node):
    m = getattr(node, "_mod", None)
    return not (m is not None and m.name.endswith("._version"))


def effect_status(e):
    """True: an effect the property forbids; None: cannot tell; False: harmless."""
    name = str(e.data)
    if e.kind == "rng":
        return True
    if e.kind == "clock":
        return True if name.split(".")[-1] in CLOCKS else None
    if e.kind == "warn":
        if name in PURE_EXT:
            return False
        if name.split(".")[-1] in ("simplefilter", "filterwarnings", "resetwarnings"):
            return not in_catch(e.node)
        return True
    if e.kind == "io":
        if name.startswith("logging."):
            return None
        if name.startswith("os.path."):
            return None if name.split(".")[-1] in ("exists", "isfile", "isdir", "getmtime", "abspath", "realpath", "expanduser") else False
        if any(name == s or name.startswith(s) for s in SURE_IO):
            return True
        return None
    if e.kind == "extwrite":
        return True
    if e.kind == "extcall":
        return None
    return False


def in_catch(node):
    m = getattr(node, "_mod", None)
    if m is None:
        return False
    for w in ast.walk(m.tree):
        if isinstance(w, ast.With) and any(isinstance(i.context_expr, ast.Call) and (ast.unparse(i.context_expr.func).split(".")[-1] == "catch_warnings") for i in w.items):
            if any(x is node for x in ast.walk(w)):
                return True
    return False


AMBIENT = {"os": ("environ", "environb"), "sys": ("argv", "stdin", "stdout", "stderr", "path", "flags", "modules"), "numpy": ("random",), "np": ()}
EFFECT_ROOTS = {"random", "secrets", "uuid", "time", "subprocess", "socket", "tempfile", "shutil", "pathlib", "atexit", "signal", "gc", "warnings", "logging", "io", "os", "sys", "datetime", "multiprocessing", "threading"}
EFFECT_BUILTINS = {"print", "open", "input", "exec", "eval", "__import__", "breakpoint"}


def aliases(m):
    """Local names of external modules and of objects imported from them."""
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                out[a.asname or a.name] = n.module + "." + a.name
    return out


def ext_refs(m, tree):
    """External names mentioned in a tree: (dotted name, node)."""
    al = aliases(m)
    inner = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute):
            if id(n) in inner:
                continue
            d, x = [], n
            while isinstance(x, ast.Attribute):
                inner.add(id(x))
                d.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name):
                inner.add(id(x))
                if x.id in al:
                    yield ".".join([al[x.id]] + d[::-1]), n
        elif isinstance(n, ast.Name) and id(n) not in inner and isinstance(n.ctx, ast.Load):
            if n.id in al:
                yield al[n.id], n
            elif n.id in EFFECT_BUILTINS:
                yield n.id, n


def effectful_name(d):
    root = d.split(".")[0]
    if d.startswith("numpy.random") or d in EFFECT_BUILTINS:
        return True
    if root == "numpy":
        return d.split(".", 1)[-1] in npmodel.GLOBAL_NP - {"errstate"}
    return root in EFFECT_ROOTS


def c22(rep):
    rep.explanation = "Effects reached from importing the package (the version look-up: only changes of process-wide state) and from the constructors and the four methods: calls that draw random numbers, read the clock, environment, files or produce output, change NumPy's or another library's global settings; and every ambient object (environment, argument vector, standard streams) mentioned in a reached function. Where a method cannot be analysed, every external name its module mentions must be free of effects."
    rep.min_obl = 6
    from .ver import state_changes
    state_changes(rep)
    # import
    s = Session()
    set_ranges(s.cfg)
    s.frame(lambda: s.it.module("kalmankit"))
    s.frame(lambda: [s.it.module("kalmankit." + m) for m in ("standard", "extended", "utils")])
    rep.saw(s.it)
    report_effects(rep, "import kalmankit", s.it, s.it.events)
    for name, e in list(s.it.modenv.items()):
        if name.endswith("_version"):
            continue
        m = s.loader.load(name)
        tops = [st for st in m.tree.body if not isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))]
        for st in tops:
            for d, n in ext_refs(m, st):
                if ambient(d):
                    rep.add("no-ambient-input", "import of %s reads %s" % (name, d), False, "", where(n))
        bad = [d for st in tops for d, n in ext_refs(m, st) if effectful_name(d)]
        unk = [n for n, v in s.it.heap[e].vars.items() if any(isinstance(l, Unk) for l in leaves(v))]
        if unk and bad:
            rep.add("no-effects", "import of %s" % name, None, "names %s not analysed; module mentions %s" % (unk, bad))
    for which in WHICH:
        for cfg in ("vec",) if rep.tier != "thorough" else CFGS:
            for meth in METHODS:
                a = Run(which, meth, cfg)
                rep.saw(a.it)
                if a.err is not None:
                    refs = sorted({d for name in a.it.modenv if not name.endswith("_version") for m in [a.s.loader.load(name)] if m is not None and m.name.startswith("kalmankit") for d, n in ext_refs(m, m.tree) if effectful_name(d)})
                    rep.add("no-effects", a.label, None if refs else True, a.err + ("; modules mention %s" % refs if refs else "; no external name with effects in any analysed module"), a.where())
                    continue
                report_effects(rep, a.label, a.it, a.it.events)
                for fi in reached(a.it):
                    if fi.mod.name.endswith("_version"):
                        # the version look-up, run when a module imports the package; its own rule is above
                        continue
                    for d, n in ext_refs(fi.mod, fi.node):
                        if ambient(d):
                            rep.add("no-ambient-input", "%s: %s in %s" % (a.label, d, fi.name), False, "", where(n))


def ambient(d):
    p = d.split(".")
    return len(p) > 1 and p[0] in ("os", "sys") and p[1] in AMBIENT[p[0]]


def report_effects(rep, label, it, events):
    n = 0
    seen = set()
    for e in events:
        if e.kind not in ("rng", "clock", "warn", "io", "extcall", "extwrite") or dead(e) or not numerical(e.node):
            continue
        st = effect_status(e)
        if st is False:
            continue
        k = (e.kind, str(e.data), where(e.node))
        if k in seen:
            continue
        seen.add(k)
        n += 1
        unk = guard_kind(e.guard) == "unk"
        rep.add("no-effects", "%s: %s in %s" % (label, e.data, e.fn), False if st and not unk else None, "%s, reached when %r" % (e.kind, e.guard), where(e.node))
    if not n:
        rep.add("no-effects", label, True, "%d functions entered" % sum(e.kind == "enter" for e in events))


# ---------------------------------------------------------------- C23


def c23(rep):
    rep.explanation = "Degree of homogeneity in (initial mean, observations, controls) of every value of the standard filter, through its recurrences: means are of degree 1 in every term, covariances and gains of degree 0, data enter no inverse, no nonlinear function and no condition other than 'entirely NaN'."
    rep.min_obl = 12
    for cfg in CFGS:
        for meth in METHODS:
            a = Run("KF", meth, cfg)
            rep.saw(a.it)
            b = refrun("KF", meth, cfg)
            for i, nm, want in ((0, "means", {1}), (1, "covariances", {0})):
                def fn():
                    homogeneous(a, resolve(a.it, item(a, a.res, i)), want, nm)

                decide(rep, "linear-in-the-data", "%s %s" % (a.label, nm), a, fn, lambda: equal_to(a, item(a, a.res, i), b, item(b, b.res, i)))
            if meth != "predict":
                def fg():
                    homogeneous(a, resolve(a.it, gain_attr(a)), {0}, "gains")

                decide(rep, "linear-in-the-data", "%s gains" % a.label, a, fg, lambda: equal_to(a, gain_attr(a), b, b.gains()))


def homogeneous(a, v, want, nm):
    w = has_unk(v)
    if w:
        raise Unsure(w)
    d = Degree(a.it)
    d.solve([v])
    got = d.value(v)
    if not got <= want:
        raise Found("%s contain terms of degree %s in the data" % (nm, sorted(got)))


# ---------------------------------------------------------------- C24


def c24(rep):
    rep.explanation = "filter() has the normal form of a loop that carries nothing but the last posterior mean and covariance and calls the object's own predict and update with the model entries, control and observation of the step; predict and update do not depend on earlier calls. So cutting the series and restarting from the last posterior, or driving by hand, gives the same posteriors."
    rep.min_obl = 8
    for which in WHICH:
        for cfg in CFGS:
            a, b = Run(which, "filter", cfg), Drive(which, cfg)
            rep.saw(a.it)
            rep.saw(b.it)
            if a.err is not None or b.err is not None:
                rep.add("filter-is-a-fold", a.label, None, a.err or b.err, a.where())
                continue
            for i in (0, 1):
                against(rep, "filter-is-a-fold", a, b, item(a, a.res, i), item(b, b.res, i), "filter()[%d]" % i, "%s item %d" % (a.label, i))
        for cfg in ("vec",) if rep.tier != "thorough" else CFGS:
            for m2 in ("predict", "update"):
                f = fresh_run(which, m2, cfg)
                for m1 in ("predict", "update"):
                    h = HistRun(which, cfg, [m1], m2, havoc=True)
                    rep.saw(h.it)
                    st, why = same_result(h, f)
                    if st is None and h.err is None and f.err is None:
                        # one concrete history decides
                        c = HistRun(which, cfg, [m1], m2)
                        st, why = same_result(c, f)
                        st = st if st is False else None
                    rep.add("steps-carry-nothing-else", h.label, st, why or "", h.where())


# ---------------------------------------------------------------- C25


def helper(name, args, cfg, kw=None):
    s = Session(cfg=cfg)
    f = s.func("kalmankit.utils", name)
    s.marks = (s.it.nid, s.it.tok, len(s.it.events))
    try:
        v = s.call(f, args, kw)
    except Unsupported as u:
        return s, None, str(u)
    return s, v, None


def opaque_args(cfg, name):
    c = cfg
    yield "vector", letter(name, c.u)
    yield "matrix", letter(name, (c.n, c.p))
    yield "scalar array", letter(name, ())
    yield "series of vectors", series(name, N, c.u)
    yield "series of matrices", series(name, N, (c.n, c.p))
    yield "any object", Op(("ext", name), frozenset([("ext", name)]))


def c25(rep):
    rep.explanation = "check_none_and_broadcast analysed on every kind of argument: what is not None comes back as the very same object (identity of the value graph, no copy, no conversion); None gives a newly allocated float64 array, every element NaN, of the reference's shape for every element type of the reference, which is not written. is_nan_all compared with numpy.isnan(x).all()."
    rep.min_obl = 12
    for cname in CFGS:
        cfg = Cfg(cname)
        set_ranges(cfg)
        for la, arr in opaque_args(cfg, "arr"):
            for lb, ref in opaque_args(cfg, "ref"):
                if lb not in ("series of matrices", "vector"):
                    continue
                s, v, err = helper("check_none_and_broadcast", [arr, ref], cfg)
                rep.saw(s.it)
                inst = "check_none_and_broadcast(%s, %s)" % (la, lb)
                if err:
                    rep.add("same-object", inst, None, err)
                    continue
                raised(rep, "same-object", inst, s)
                if la == "any object":
                    # an object other than None
                    for x in list(atoms_of(v)):
                        if x[0] in ("isnone", "none"):
                            v = restrict(v, x, False)
                st, why = identical(v, arr)
                rep.add("same-object", inst, st, why)
                untouched(rep, inst, s, ("arr", "ref"))
        for lb, ref in opaque_args(cfg, "ref"):
            if lb == "any object":
                continue
            s, v, err = helper("check_none_and_broadcast", [NONE, ref], cfg)
            rep.saw(s.it)
            inst = "check_none_and_broadcast(None, %s)" % lb
            if err:
                rep.add("nan-marker", inst, None, err)
                continue
            raised(rep, "nan-marker", inst, s)
            untouched(rep, inst, s, ("ref",))
            nan_marker(rep, inst, s, v, ref)
    nan_helper(rep)


def raised(rep, rule, inst, s):
    for g, et, node, why, explicit, loops in s.it.pending:
        k = guard_kind(g)
        if k in ("never", "valid"):
            continue
        rep.add(rule, "%s raises %s" % (inst, et), None if k == "unk" else False, "when %r: %s" % (g, why), where(node) if node is not None else "")


def identical(v, arr):
    for l in leaves(v):
        if isinstance(l, Bot):
            continue
        if isinstance(l, Unk):
            return None, l.why
        if type(l) is not type(arr) or l != arr:
            u = has_unk(l)
            return (None, u) if u else (False, "returns %r" % (l,))
        if isinstance(l, (Num, Seq, Op)) and l.owner != arr.owner:
            return False, "returns a copy, not the argument itself"
        if isinstance(l, (Num, Seq)) and l.dt != arr.dt:
            return False, "returns a converted array (%r)" % (l.dt,)
    return True, ""


def untouched(rep, inst, s, names):
    for e in s.it.events:
        if dead(e):
            continue
        if e.kind == "mutate-token" and e.data[0] == "ext" and e.data[1] in names:
            rep.add("arguments-untouched", inst, False, "%s is written" % e.data[1], where(e.node))
        elif e.kind in ("opwrite", "unkwrite"):
            rep.add("arguments-untouched", inst, None if e.kind == "unkwrite" else False, "write: %s" % repr(e.data)[:200], where(e.node))


def nan_marker(rep, inst, s, v, ref):
    it = s.it
    v = it.mapleaf(lambda l: l, v)
    for l in leaves(v):
        if isinstance(l, Bot):
            continue
        if isinstance(l, Ref):
            x = it.as_seq(l, None)
            r = it.heap[l.id]
            if isinstance(r, ArrR) and r.kind == "array":
                l = Seq(r.n, r.body, "array", frozenset([("fresh", 0)]), r.dt)
            elif isinstance(x, Seq):
                l = Seq(x.n, x.body, "list", x.owner, x.dt)
        u = has_unk(l)
        if u:
            rep.add("nan-marker", inst, None, u)
            continue
        if isinstance(ref, Seq) != isinstance(l, Seq) or not isinstance(l, (Num, Seq)):
            rep.add("nan-marker", inst, False if isinstance(l, (Num, Seq, C, Tup)) else None, "returns %r" % (l,))
            continue
        if isinstance(l, Seq):
            if l.kind != "array":
                rep.add("nan-marker", inst, False, "returns a list")
                continue
            rep.add("nan-marker-shape", inst, None if l.n is None else l.n == ref.n, "length %r, reference %r" % (l.n, ref.n))
            bs = [x for x in leaves(l.body) if not isinstance(x, Bot)]
            rs = ref.body.shape
            cond = atoms_of(l.body)
        else:
            bs, rs, cond = [l], ref.shape, set()
        cond |= atoms_of(v)
        if cond:
            rep.add("nan-marker", inst, False, "depends on %s" % ", ".join(map(show_atom, cond)))
            continue
        for x in bs:
            ok = isinstance(x, Num) and x.p == NANP
            rep.add("nan-marker", inst, ok, "" if ok else "elements are %r" % (x,))
            if isinstance(x, Num):
                if x.shape is None:
                    rep.add("nan-marker-shape", inst, None, "shape not known")
                else:
                    rep.add("nan-marker-shape", inst, same_shape(x.shape, rs), "shape %r, reference %r" % (x.shape, rs))
        dt = l.dt if l.dt is not None else (bs[0].dt if bs and isinstance(bs[0], Num) else None)
        rep.add("nan-marker-float", inst, None if dt is None else dt == "f8" or dt in ("fx", "wf"), "element type %r" % (dt,))
        own = l.owner
        if any(t[0] == "ext" for t in own):
            rep.add("nan-marker-fresh", inst, False, "shares memory with %r" % (sorted(own),))


# ---------------------------------------------------------------- C26

ORDER = {
    ("KF", "__init__"): ("A", "xk", "B", "Pk", "H", "Q", "R"),
    ("KF", "predict"): ("Ak", "xk", "Bk", "uk", "Pk", "Qk"),
    ("KF", "update"): ("Hk", "xk", "Pk", "zk", "Rk"),
    ("KF", "filter"): ("Z", "U"),
    ("KF", "smooth"): ("Z", "U"),
    ("EKF", "__init__"): ("xk", "Pk", "Q", "R", "f", "h", "jacobian_A", "jacobian_H"),
    ("EKF", "predict"): ("xk", "uk", "Pk", "Qk"),
    ("EKF", "update"): ("xk", "Pk", "zk", "Rk"),
    ("EKF", "filter"): ("Z", "U"),
    ("EKF", "smooth"): ("Z", "U"),
}


class CallRun(Run):
    """Construction and one call, arguments passed as given by the two styles."""

    def __init__(self, which, meth, cfg, ctor_pos, pos, tag="", omit=(), extra=None):
        Run.__init__(self, which, None, cfg, tag=tag)
        self.meth = meth
        self.label = "%s.%s [%s]" % (MODS[which][1], meth, cfg)
        if self.err is not None:
            return
        s = self.s
        try:
            kw = s.kf_args() if which == "KF" else s.ekf_args()
            kw.update(extra or {})
            self.p0 = len(self.it.pending)
            if ctor_pos:
                args = [kw.pop(k) for k in ORDER[which, "__init__"]]
                self.obj = s.call(self.cls, args, kw)
            else:
                self.obj = s.call(self.cls, [], kw)
            if meth != "__init__":
                kw = {k: v for k, v in self.kwargs(meth).items() if k not in omit}
                if pos:
                    args = [kw.pop(k) for k in ORDER[which, meth] if k in kw]
                    self.call(meth, kw=kw, args=args)
                else:
                    self.call(meth, kw=kw)
        except Unsupported as u:
            self.err = str(u)


def binding_errors(run):
    return [p for p in run.it.pending[getattr(run, "p0", 0):] if p[1] in ("TypeError", "AttributeError") and guard_kind(p[0]) not in ("never", "valid")]


def c26(rep):
    rep.explanation = "Name binding of the package (exports, export lists, version), and the documented call forms: every constructor and method called with all parameters by keyword and with all in documented positional order must bind and denote the same value; the control and the state size are optional; documented attributes exist after construction."
    rep.min_obl = 24
    exports(rep)
    for which in WHICH:
        for cfg in CFGS if rep.tier == "thorough" else ("vec",):
            base = {}
            for meth in METHODS:
                k = base[meth] = CallRun(which, meth, cfg, False, False)
                rep.saw(k.it)
                for ctor_pos, pos, omit, what in ((False, False, (), "keywords"), (False, True, (), "positional"), (True, False, (), "constructor positional")) + (((False, False, ("U",), "without control"), (False, True, ("U",), "positional, without control")) if meth in ("filter", "smooth") else ()):
                    a = k if what == "keywords" else CallRun(which, meth, cfg, ctor_pos, pos, tag="q:", omit=omit)
                    inst = "%s (%s)" % (k.label, what)
                    if a.err is not None:
                        rep.add("accepts-documented-call", inst, None, a.err, a.where())
                        continue
                    be = binding_errors(a)
                    if be:
                        for g, et, node, why, ex, lp in be[:3]:
                            rep.add("accepts-documented-call", inst, None if guard_kind(g) == "unk" else False, "%s: %s" % (et, why), where(node) if node is not None else "")
                        continue
                    rep.add("accepts-documented-call", inst, True, "", a.where())
                    if a is k or k.err is not None or binding_errors(k):
                        continue
                    va, vk = a.res, k.res
                    if omit:
                        vk = CallRun(which, meth, cfg, False, False, tag="w:")
                        # the same call with U=None
                        vk = Run(which, meth, cfg, U=None, tag="w:")
                        against(rep, "same-result-by-position", a, vk, path=meth, what=inst)
                    else:
                        against(rep, "same-result-by-position", a, k, path=meth, what=inst)
            attributes(rep, which, cfg)
    # the state size may be given
    a = CallRun("KF", "filter", "vec", False, False, tag="q:", extra=dict(state_size=IntL(n_)))
    k = CallRun("KF", "filter", "vec", False, False)
    if a.err is not None:
        rep.add("accepts-documented-call", "KalmanFilter(..., state_size=n)", None, a.err)
    else:
        be = binding_errors(a)
        rep.add("accepts-documented-call", "KalmanFilter(..., state_size=n)", not be, be[0][3] if be else "")
        if not be and k.err is None:
            against(rep, "same-result-by-position", a, k, path="filter", what="KalmanFilter(..., state_size=n).filter")


def attributes(rep, which, cfg):
    a = Run(which, None, cfg)
    if a.err is not None:
        rep.add("documented-attributes", MODS[which][1], None, a.err, a.where())
        return
    for n in ATTRS[which] + ("state_size", "kalman_gains"):
        inst = "%s.%s [%s]" % (MODS[which][1], n, cfg)
        before = len(a.it.pending)
        v = get_attr(a, n)
        if any(p[1] == "AttributeError" for p in a.it.pending[before:]) or isinstance(v, Bot):
            rep.add("documented-attributes", inst, False, "attribute missing after construction", a.where())
            continue
        u = next((l.why for l in leaves(v) if isinstance(l, Unk)), None)
        if u:
            rep.add("documented-attributes", inst, None, u, a.where())
            continue
        if n == "state_size":
            bad = [l for l in leaves(v) if not isinstance(l, Bot) and not (isinstance(l, IntL) and l.a == aff(a.cfg.n))]
            rep.add("documented-attributes", inst, not bad, "value %r" % (v,) if bad else "", a.where())
        else:
            rep.add("documented-attributes", inst, True, "", a.where())


def exports(rep):
    s = Session()
    set_ranges(s.cfg)
    s.frame(lambda: s.it.module("kalmankit"))
    rep.saw(s.it)
    want = {"KalmanFilter": ("kalmankit.standard", "KalmanFilter"), "ExtendedKalmanFilter": ("kalmankit.extended", "ExtendedKalmanFilter"), "utils": None, "__version__": None}
    e = s.it.modenv.get("kalmankit")
    if e is None:
        raise AnalysisBroken("package kalmankit not found")
    vars_ = s.it.heap[e].vars
    for n, src in want.items():
        v = vars_.get(n)
        inst = "kalmankit.%s" % n
        if v is None or all(isinstance(l, Bot) for l in leaves(v)):
            rep.add("exports", inst, False, "not bound by import kalmankit")
            continue
        if src is not None:
            cls = [l for l in leaves(v)]
            ok = len(cls) == 1 and isinstance(cls[0], Fun) and cls[0].kind == "class"
            if ok and s.it.classes[cls[0].data].name != src[1]:
                ok = False
            rep.add("exports", inst, ok if not any(isinstance(l, Unk) for l in cls) else None, "" if ok else "bound to %r" % (v,))
        else:
            rep.add("exports", inst, True)
    for name in ("kalmankit", "kalmankit.standard", "kalmankit.extended", "kalmankit.utils"):
        s.frame(lambda: s.it.module(name))
        if name not in s.it.modenv:
            rep.add("export-list", name, False, "module not found")
            continue
        vars_ = s.it.heap[s.it.modenv[name]].vars
        al = vars_.get("__all__")
        if al is None:
            rep.add("export-list", name, True, "no export list")
            continue
        items = None
        for l in leaves(al):
            items = s.it.static_items(l)
        if items is None:
            rep.add("export-list", name, None, "export list not constant")
            continue
        for x in items:
            n = x.v if isinstance(x, C) else None
            if not isinstance(n, str):
                n = getattr(x, "v", None) or str(x)
            v = vars_.get(n)
            ok = v is not None and not all(isinstance(l, Bot) for l in leaves(v)) or s.loader.find(name + "." + n) is not None
            rep.add("export-list", "%s.__all__: %s" % (name, n), ok, "" if ok else "listed but not bound")
        must = {"kalmankit": ("KalmanFilter", "ExtendedKalmanFilter", "utils"), "kalmankit.standard": ("KalmanFilter",), "kalmankit.extended": ("ExtendedKalmanFilter",), "kalmankit.utils": ()}[name]
        got = {x.v for x in items if isinstance(x, C)}
        for n in must:
            rep.add("export-list", "%s exports %s" % (name, n), n in got, "" if n in got else "missing from __all__ %s" % sorted(got))


CHECKS = {"C%d" % i: globals()["c%d" % i] for i in range(10, 27)}
