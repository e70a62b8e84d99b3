"""Decisions about the two filters (C01-C24)."""
import os

from .interp import Unsupported, ListR, ArrR, InstR, DictR, where
from .loader import AnalysisBroken
from .model import Cfg, Session, set_ranges, ekf_step_args, HERE, N, letter, series
from .terms import *  # noqa: F401,F403
from .compare import compare, resolve, has_unk, System, Ranges, rec_letters, Comparison
from . import npmodel
from .report import Report

REFROOT = os.path.join(HERE, "ref")
MODS = {"KF": ("kalmankit.standard", "KalmanFilter"), "EKF": ("kalmankit.extended", "ExtendedKalmanFilter")}
METHODS = ("predict", "update", "filter", "smooth")


class Run:
    """One method of one class analysed in one configuration."""

    def __init__(self, which, meth, cfg, ref=False, B="maybe", U="maybe", tag=None, linear=False, setup=None, noslack=False, dt=None, hist=()):
        self.which, self.meth, self.cfgname, self.ref = which, meth, cfg, ref
        self.cfg = Cfg(cfg, slack=not noslack)
        set_ranges(self.cfg)
        self.err = None
        self.res = None
        if ref:
            self.s = Session(root=REFROOT, tag=tag or "r:", cfg=self.cfg)
            mod, name = "reference", "Ref" + which
        else:
            self.s = Session(tag=tag or "", cfg=self.cfg)
            mod, name = MODS[which]
        self.it = self.s.it
        self.label = "%s.%s [%s]" % (name, meth, cfg)
        cls = self.s.cls(mod, name)
        self.cls = cls
        if setup:
            setup(self)
        try:
            kwargs = self.s.kf_args(B=B) if which == "KF" else self.s.ekf_args()
            self.obj = self.s.new(cls, kwargs)
            self.n_init_pending = len(self.it.pending)
            self.ev_init = len(self.it.events)
            if isinstance(self.obj, Ref) and meth:
                for i, h in enumerate(hist):
                    # earlier calls with independent arguments
                    self.s.pre = "h%d." % i
                    kw = self.kwargs(h)
                    self.s.pre = ""
                    self.call(h, kw=kw)
                    if self.err:
                        return
                if hist:
                    self.label += " after earlier calls"
                    self.n_init_pending = len(self.it.pending)
                self.call(meth, U)
        except Unsupported as u:
            self.err = str(u)

    def kwargs(self, meth, U="maybe"):
        if meth in ("filter", "smooth"):
            return self.s.zu(U)
        pre, upd = self.s.kf_step_args() if self.which == "KF" else ekf_step_args(self.s)
        return pre if meth == "predict" else upd

    def call(self, meth, U="maybe", kw=None, args=()):
        kw = self.kwargs(meth, U) if kw is None else kw
        try:
            self.res = self.s.method(self.obj, meth, args=args, kw=kw)
        except Unsupported as u:
            self.err = str(u)
            self.res = None
        return self.res

    def field(self, name):
        """Value of an attribute of the filter object."""
        r = self.it.heap[self.obj.id]
        return r.fields.get(name)

    def gains(self):
        v = self.field("kalman_gains")
        return v

    def where(self):
        ci = self.it.classes[self.cls.data]
        if self.meth:
            v, c = self.it.class_lookup(self.cls.data, self.meth)
            if v is not None and isinstance(v, Fun) and v.kind == "func":
                fi = self.it.funcs[v.data]
                return "%s (%s.%s)" % (where(fi.node), ci.name, self.meth)
        return "%s (%s)" % (where(ci.node), ci.name)


# ---------------------------------------------------------------- raised exceptions

VALIDATION = {"none"}


def guard_kind(g):
    """'never' | 'valid' (only reachable for inputs outside the documented shapes) | 'unk' | 'data'"""
    if g == FALSE:
        return "never"
    kinds = set()
    for a in atoms_of(g):
        if a[0] in ("eq0", "ge0"):
            if all(s.startswith("x") for s in a[1].syms()):
                kinds.add("valid")
            else:
                kinds.add("data")
        elif a[0] == "unk" or has_unk(Node(a, TRUE, FALSE)):
            kinds.add("unk")
        else:
            kinds.add("data")
    if not kinds:
        return "data"
    # a guard that needs a validity atom to be true is outside the documented inputs
    if kinds == {"valid"}:
        return "valid"
    if "unk" in kinds:
        return "unk"
    return "data"


def exceptions(rep, run, rule="no-exception-for-documented-inputs"):
    """Obligations: the analysed call never raises on documented inputs."""
    bad = 0
    for g, et, node, why, explicit, loops in run.it.pending:
        k = guard_kind(g)
        if k in ("never", "valid"):
            continue
        bad += 1
        rep.add(rule, "%s: %s" % (run.label, et), None if k == "unk" else False, "%s raised when %r: %s" % (et, g, why), where(node) if node is not None else "")
    if not bad:
        rep.add(rule, run.label, True)


def against(rep, rule, run, ref, va=None, vb=None, path="result", what=None):
    """Obligation: value of the analysed call equals the reference's."""
    inst = what or run.label
    if run.err is not None:
        rep.add(rule, inst, None, run.err, run.where())
        return None
    if ref.err is not None:
        raise AnalysisBroken("reference: " + ref.err)
    va = run.res if va is None else va
    vb = ref.res if vb is None else vb
    try:
        c = compare(run.it, va, ref.it, vb, path)
    except Unsupported as u:
        rep.add(rule, inst, None, str(u), run.where())
        return None
    if c.status == "equal":
        rep.add(rule, inst, True, "", run.where())
    elif c.status == "undecided":
        rep.add(rule, inst, None, c.why, run.where())
    else:
        rep.add(rule, inst, False, "\n".join(d.text() for d in c.diffs[:3]), run.where())
    return c


class Drive(Run):
    """The class's own predict and update driven by the reference loop."""

    def __init__(self, which, cfg, B="maybe", U="maybe", tag="d:", noslack=False):
        Run.__init__(self, which, None, cfg, B=B, tag=tag, noslack=noslack)
        self.meth = "filter"
        self.label = "%s driven step by step [%s]" % (MODS[which][1], cfg)
        try:
            s = self.s
            f = s.func("reference", "drive_%s_filter" % which.lower())
            if which == "KF":
                a = s.kf_args(B=B)
                args = [self.obj, a["A"], a["B"], a["H"], a["Q"], a["R"], a["xk"], a["Pk"]]
            else:
                a = s.ekf_args()
                args = [self.obj, a["Q"], a["R"], a["xk"], a["Pk"]]
            zu = s.zu(U)
            self.res = s.call(f, args + [zu["Z"], zu["U"]])
        except Unsupported as u:
            self.err = str(u)


def item(run, v, i):
    """i-th item of a returned tuple."""
    def f(l):
        if isinstance(l, Tup):
            return l.xs[i] if i < len(l.xs) else Unk("result has %d items" % len(l.xs))
        if isinstance(l, Unk) or isinstance(l, Bot):
            return l
        if isinstance(l, Ref):
            s = run.it.as_seq(l, None)
            if isinstance(s, Seq) and s.n is not None and s.n.is_const() and i < s.n.c:
                return subst(s.body, {IOTA: Aff(i)})
        return Unk("result is %r" % (l,))
    return run.it.mapleaf(f, v)


def pair(rep, run, rule="returns-a-pair"):
    if run.err is not None:
        return
    for l in leaves(run.res) if run.res is not None else []:
        if isinstance(l, (Unk, Bot)):
            continue
        if not isinstance(l, Tup) or len(l.xs) != 2:
            rep.add(rule, run.label, False, "returns %r" % (l,), run.where())


CFGS = ("vec", "scal")


HIST = ("update", "predict", "update")


def cmp_items(rep, rule, meth, items, whiches=("KF", "EKF"), cfgs=CFGS, **opts):
    if meth in ("predict", "update") and "hist" not in opts:
        cmp_items(rep, rule, meth, items, whiches, cfgs, hist=(), **opts)
        cmp_items(rep, rule, meth, items, whiches, cfgs, hist=HIST, **opts)
        return
    for which in whiches:
        for cfg in cfgs:
            a = Run(which, meth, cfg, **opts)
            b = Run(which, meth, cfg, ref=True, **{k: v for k, v in opts.items() if k in ("B", "U", "noslack")})
            rep.saw(a.it)
            if a.err is None and b.err is None:
                exceptions(rep, a)
                for i in items:
                    against(rep, rule, a, b, item(a, a.res, i), item(b, b.res, i), path="%s()[%d]" % (meth, i), what="%s item %d" % (a.label, i))
            else:
                against(rep, rule, a, b)


EXACT = [
    "exact arithmetic: equality is that of the matrix expressions, rounding is not considered",
    "documented shapes: A (n,n), B (n,p), H (m,n), Q (n,n), R (m,m) or scalar with scalar observations, series of length N >= 1, model arrays at least as long as the data",
    "covariances P0, Q, R given by the caller are symmetric",
]
TRUST = [
    "/verif/kfa/terms.py (matrix algebra normal forms)",
    "/verif/kfa/interp.py (predicated dataflow, loop recurrences)",
    "/verif/kfa/npmodel.py (transfer functions for Python builtins and numpy)",
    "/verif/kfa/compare.py (partition refinement over recurrence variables)",
    "/verif/kfa/ref/reference.py (reference semantics)",
    "CPython's ast parser",
]


def c01(rep):
    rep.explanation = "Normal form of the mean returned by KalmanFilter.predict, gated on 'is None' and 'entirely NaN' of both control operands, compared with A x + B u / A x for all shapes; the same for the means of filter; is_nan_all compared with numpy.isnan(x).all()."
    rep.min_obl = 4
    cmp_items(rep, "predicted-mean", "predict", (0,), ("KF",))
    nan_helper(rep)
    for cfg in CFGS:
        a, b = Run("KF", "filter", cfg), Drive("KF", cfg)
        rep.saw(a.it)
        if a.err is None and b.err is None:
            against(rep, "filter-predicts-with-predict", a, b, item(a, a.res, 0), item(b, b.res, 0), "filter()[0]")
        else:
            rep.add("filter-predicts-with-predict", a.label, None, a.err or b.err, a.where())


def nan_helper(rep):
    cfg = Cfg("vec")
    set_ranges(cfg)
    for label, arg in nan_args(cfg):
        s = Session(cfg=cfg)
        f = s.func("kalmankit.utils", "is_nan_all")
        b = Session(root=REFROOT, tag="r:", cfg=cfg)
        g = b.func("reference", "all_nan")
        try:
            v = s.call(f, [arg])
            v = s.it.truth(v)
        except Unsupported as u:
            rep.add("nan-helper", "is_nan_all(%s)" % label, None, str(u))
            continue
        w = b.it.truth(b.call(g, [arg]))
        rep.saw(s.it)
        for gx, et, node, why, explicit, loops in s.it.pending:
            rep.add("nan-helper", "is_nan_all(%s) raises %s" % (label, et), False if guard_kind(gx) == "data" else None, why, where(node))
        u = has_unk(v)
        if v == w:
            rep.add("nan-helper", "is_nan_all(%s)" % label, True)
        elif u:
            rep.add("nan-helper", "is_nan_all(%s)" % label, None, u)
        else:
            rep.add("nan-helper", "is_nan_all(%s)" % label, False, "found: %r\nexpected: %r" % (v, w))


def nan_args(cfg):
    return [
        ("vector", letter("arg", cfg.u)),
        ("matrix", letter("arg", (cfg.n, cfg.p))),
        ("scalar", letter("arg", ())),
        ("series", series("arg", N, cfg.u)),
    ]


def c02(rep):
    rep.explanation = "Normal form of the covariance returned by predict in both filters compared with A P A' + Q, for every control case."
    rep.min_obl = 4
    cmp_items(rep, "predicted-covariance", "predict", (1,))


def strip_suffix(p, suffix):
    """Sum of words ending in the letters `suffix`, with it removed."""
    d = {}
    for w, c in p.m:
        if len(w) >= len(suffix) and tuple(w[len(w) - len(suffix):]) == tuple(suffix):
            d[w[: len(w) - len(suffix)]] = c
    return Poly(d)


def has_letter(p, names):
    for l in p.letters():
        if let_has(l, names):
            return True
    return False


def let_has(l, names):
    if l.op in ("par", "el") and l.args[0] in names:
        return True
    return any(key_has(a, names) for a in l.args)


def key_has(a, names):
    if isinstance(a, Let):
        return let_has(a, names)
    if isinstance(a, Poly):
        return has_letter(a, names)
    if isinstance(a, tuple):
        return any(key_has(x, names) for x in a)
    if isinstance(a, Node):
        return any(key_has(x, names) for x in a.atom[1:]) or key_has(a.hi, names) or key_has(a.lo, names)
    if isinstance(a, Num):
        return has_letter(a.p, names)
    if isinstance(a, Seq):
        return key_has(a.body, names)
    if isinstance(a, Tup):
        return any(key_has(x, names) for x in a.xs)
    if isinstance(a, (Op, BArr)):
        return key_has(a.t, names)
    return False


def last_gain(run):
    v = run.gains()
    out = []
    if v is None:
        return Unk("no gain history attribute")
    def f(l):
        if isinstance(l, Ref):
            r = run.it.heap[l.id]
            if isinstance(r, ListR) and r.segs and r.segs[-1][0] == "one":
                return r.segs[-1][1]
            if isinstance(r, ListR) and not r.segs:
                return C("no gain recorded")
            s = run.it.as_seq(l, None)
            if isinstance(s, Seq) and s.n is not None:
                return subst(s.body, {IOTA: s.n - 1})
        return Unk("gain history %r" % (l,))
    return run.it.mapleaf(f, v)


def c03(rep):
    rep.explanation = "Normal forms of (a) the gain appended to the history, (b) the coefficient of the observation in the posterior mean, (c) the posterior covariance, each compared with P H' (H P H' + R)^-1."
    rep.min_obl = 8
    for which, cfg, hist in [(w, c, h) for w in ("KF", "EKF") for c in CFGS for h in ((), HIST)]:
            a = Run(which, "update", cfg, hist=hist)
            b = Run(which, "update", cfg, ref=True)
            rep.saw(a.it)
            if a.err is not None:
                rep.add("optimal-gain", a.label, None, a.err, a.where())
                continue
            exceptions(rep, a)
            ga, gb = last_gain(a), last_gain(b)
            against(rep, "recorded-gain", a, b, ga, gb, "gain history [-1]", a.label + " recorded gain")

            def coef(v):
                def f(l):
                    if isinstance(l, Num):
                        z = [w for w, _ in l.p.m if w and w[-1] == zlet]
                        return Num(strip_suffix(l.p, (zlet,)))
                    return l
                return a.it.mapleaf(f, v)
            zlet = letter("zk", a.cfg.z).p.m[0][0][0]
            against(rep, "gain-used-for-mean", a, b, coef(item(a, a.res, 0)), coef(item(b, b.res, 0)), "coefficient of z in update()[0]", a.label + " gain in the mean")
            against(rep, "gain-used-for-covariance", a, b, item(a, a.res, 1), item(b, b.res, 1), "update()[1]", a.label + " gain in the covariance")
    # gains recorded along a whole filtering run
    for which in ("KF", "EKF"):
        for cfg in CFGS:
            a, b = Run(which, "filter", cfg), Run(which, "filter", cfg, ref=True)
            rep.saw(a.it)
            against(rep, "gains-of-a-run", a, b, a.gains() if a.err is None else None, b.gains(), "gain history after filter()", a.label + " gain history")


def c04(rep):
    rep.explanation = "Normal form of the posterior mean returned by update compared with x + K (z - H x) (extended: h(x)); a gate on the data, a skipped or clipped observation or an exception on a data-dependent condition shows up as an extra gate."
    rep.min_obl = 4
    cmp_items(rep, "posterior-mean", "update", (0,))


def c05(rep):
    rep.explanation = "Normal form of the posterior covariance returned by update compared with (I - K H) P."
    rep.min_obl = 4
    cmp_items(rep, "posterior-covariance", "update", (1,))


def c06(rep):
    rep.explanation = "Recurrence equations extracted from KalmanFilter.filter compared with the reference recursion by partition refinement, for symbolic series length and dimensions."
    rep.min_obl = 4
    cmp_items(rep, "filter-recursion", "filter", (0, 1), ("KF",))


def c07(rep):
    rep.explanation = "Recurrence equations extracted from ExtendedKalmanFilter.filter compared with the reference recursion."
    rep.min_obl = 4
    cmp_items(rep, "filter-recursion", "filter", (0, 1), ("EKF",))


def c08(rep):
    rep.explanation = "Backward recurrence equations extracted from KalmanFilter.smooth compared with the RTS recursion over the filter's own estimates."
    rep.min_obl = 4
    cmp_items(rep, "rts-recursion", "smooth", (0, 1), ("KF",))


def c09(rep):
    rep.explanation = "Backward recurrence equations extracted from ExtendedKalmanFilter.smooth compared with the extended RTS recursion."
    rep.min_obl = 4
    cmp_items(rep, "rts-recursion", "smooth", (0, 1), ("EKF",))


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09}
