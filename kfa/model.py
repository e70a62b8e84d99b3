"""Symbolic set-up of the filters: dimensions, model arrays, user callables, and driving of methods."""
import os

from .interp import *  # noqa: F401,F403
from .interp import Interp, InstR, ListR, DictR, ArrR, Unsupported
from .loader import AnalysisBroken, Loader
from .terms import *  # noqa: F401,F403
from . import npmodel

REPO = os.environ.get("KFA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))

N = sym("N")
n_, m_, p_ = sym("n"), sym("m"), sym("p")


class Cfg:
    """Shape configuration.

    vec  - vector observations with matrix noise
    scal - scalar observations with scalar noise, one-row observation matrix
    """

    def __init__(self, name="vec", slack=True):
        self.name = name
        self.slack = slack
        if name == "vec":
            self.n, self.m, self.p = n_, m_, p_
            self.z = (m_,)
            self.R = (m_, m_)
            self.hx = (m_,)
        elif name == "scal":
            self.n, self.m, self.p = n_, Aff(1), p_
            self.z = ()
            self.R = ()
            self.hx = ()
        else:
            raise ValueError(name)
        self.x = (self.n,)
        self.u = (self.p,)


SHORT = [None]
"""When set: every series has exactly this many observations (loops over it are analysed step by step)."""


def LEN():
    """Range of the length of a series."""
    return (Aff(1), None) if SHORT[0] is None else (Aff(SHORT[0]), Aff(SHORT[0]))


def set_ranges(cfg):
    RANGES.clear()
    set_range("N", *LEN())
    set_range(IOTA, Aff(0), None)
    for d in ("n", "m", "p"):
        set_range(d, Aff(1), None)
    for a in "ABHQRU":
        set_range("x" + a, Aff(0), None)


def letter(name, shape, sym_=False):
    return Num(P_let(Let("par", (name,), False, sym_, shape)), shape, frozenset([("ext", name)]) if shape != () else frozenset(), ("in", name))


def series(name, n, shape, sym_=False):
    own = frozenset([("ext", name)])
    el = Num(P_let(Let("el", (name, sym(IOTA)), False, sym_, shape)), shape, own if shape != () else frozenset(), ("in", name))
    return Seq(n, el, "array", own, ("in", name), ("ext", name))


def maybe_none(name, v):
    return ite(Node(("none", name), TRUE, FALSE), NONE, v)


class Session:
    """One analysed program with its interpreter."""

    def __init__(self, root=None, tag="", cfg=None, src_module=None):
        self.cfg = cfg or Cfg()
        self.loader = Loader(root or os.path.join(REPO, "src"), [] if root else [os.path.join(HERE, "ref")])
        self.it = Interp(self.loader, tag, self.cfg)
        cb = self.it.cbshape
        c = self.cfg
        cb["f"], cb["jacobian_A"] = c.x, (c.n, c.n)
        cb["h"], cb["jacobian_H"] = c.hx, (c.m, c.n)

    def cls(self, modname, name):
        npmodel.CUR = self.it
        e = self.it.module(modname)
        if e is None:
            raise AnalysisBroken("module %s not found" % modname)
        v = self.it.heap[e].vars.get(name)
        ls = [l for l in leaves(v)] if v is not None else []
        if len(ls) != 1 or not isinstance(ls[0], Fun) or ls[0].kind != "class":
            raise AnalysisBroken("class %s.%s not found" % (modname, name))
        return ls[0]

    def func(self, modname, name):
        npmodel.CUR = self.it
        e = self.it.module(modname)
        v = self.it.heap[e].vars.get(name) if e is not None else None
        ls = [l for l in leaves(v)] if v is not None else []
        if len(ls) != 1 or not isinstance(ls[0], Fun):
            raise AnalysisBroken("function %s.%s not found" % (modname, name))
        return ls[0]

    def frame(self, fn):
        """Run fn inside a driver frame."""
        it = self.it
        npmodel.CUR = it
        it.g = TRUE
        if not it.frames:
            env = it.new(EnvR({}, None, TRUE)).id
            it.frames = [dict(env=env, name="<driver>", ret=BOT, retg=FALSE, mod=None, cls=None, absloop=0)]
        return fn()

    def call(self, f, args=(), kw=None):
        return self.frame(lambda: self.it.call(f, list(args), dict(kw or {}), None))

    def method(self, obj, name, args=(), kw=None):
        def go():
            f = self.it.attr(obj, name, None)
            return self.it.call(f, list(args), dict(kw or {}), None)

        return self.frame(go)

    # ---- model inputs
    pre = ""
    extra = Aff(0)

    same_n = False
    """Series of history calls have the length of the last call's series."""

    def N(self):
        if self.pre and not self.same_n:
            s = self.pre + "N"
            set_range(s, *LEN())
            return sym(s)
        return N


    def kf_args(self, B="maybe", dt_int=False):
        c = self.cfg
        sl = (lambda a: self.N() + self.extra + sym("x" + a)) if c.slack else (lambda a: self.N())
        b = series(self.pre + "B", sl("B"), (c.n, c.p))
        if B == "maybe":
            b = maybe_none(self.pre + "B", b)
        elif B is None:
            b = NONE
        return dict(
            A=series(self.pre + "A", sl("A"), (c.n, c.n)),
            xk=letter(self.pre + "x0", c.x),
            B=b,
            Pk=letter(self.pre + "P0", (c.n, c.n), True),
            H=series(self.pre + "H", sl("H"), (c.m, c.n)),
            Q=series(self.pre + "Q", sl("Q"), (c.n, c.n), True),
            R=series(self.pre + "R", sl("R"), c.R, True),
        )

    def ekf_args(self):
        c = self.cfg
        sl = (lambda a: self.N() + self.extra + sym("x" + a)) if c.slack else (lambda a: self.N())
        return dict(
            xk=letter(self.pre + "x0", c.x),
            Pk=letter(self.pre + "P0", (c.n, c.n), True),
            Q=series(self.pre + "Q", sl("Q"), (c.n, c.n), True),
            R=series(self.pre + "R", sl("R"), c.R, True),
            f=Fun("cb", "f"),
            h=Fun("cb", "h"),
            jacobian_A=Fun("cb", "jacobian_A"),
            jacobian_H=Fun("cb", "jacobian_H"),
        )

    def zu(self, U="maybe"):
        c = self.cfg
        z = series(self.pre + "Z", self.N(), c.z)
        u = series(self.pre + "U", self.N() + sym("xU") if c.slack else self.N(), c.u)
        if U == "maybe":
            u = maybe_none(self.pre + "U", u)
        elif U is None:
            u = NONE
        return dict(Z=z, U=u)

    def kf_step_args(self, maybe=True):
        c = self.cfg
        pre = dict(
            Ak=letter(self.pre + "Ak", (c.n, c.n)),
            xk=letter(self.pre + "xk", c.x),
            Bk=letter(self.pre + "Bk", (c.n, c.p)),
            uk=letter(self.pre + "uk", c.u),
            Pk=letter(self.pre + "Pk", (c.n, c.n), True),
            Qk=letter(self.pre + "Qk", (c.n, c.n), True),
        )
        if maybe:
            pre["Bk"] = maybe_none(self.pre + "Bk", pre["Bk"])
            pre["uk"] = maybe_none(self.pre + "uk", pre["uk"])
        upd = dict(
            Hk=letter(self.pre + "Hk", (c.m, c.n)),
            xk=letter(self.pre + "xk", c.x),
            Pk=letter(self.pre + "Pk", (c.n, c.n), True),
            zk=letter(self.pre + "zk", c.z),
            Rk=letter(self.pre + "Rk", c.R, True),
        )
        return pre, upd

    def new(self, cls, kw):
        return self.call(cls, [], kw)


def ekf_step_args(s):
    pre, upd = s.kf_step_args(False)
    return {k: pre[k] for k in ("xk", "uk", "Pk", "Qk")}, {k: upd[k] for k in ("xk", "Pk", "zk", "Rk")}
