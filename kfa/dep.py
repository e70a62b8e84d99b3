"""Dependence analyses on value graphs: look-ahead, data dependence, homogeneity, symmetry."""
from .terms import *  # noqa: F401,F403
from .terms import RANGES
from . import npmodel
from .compare import System, Ranges, Assume, resolve, has_unk, rec_letters


def parts(a):
    """Direct constituents of a key, letter, atom or leaf."""
    if isinstance(a, Let):
        return a.args
    if isinstance(a, Poly):
        return tuple(a.letters())
    if isinstance(a, tuple):
        return a
    if isinstance(a, Num):
        return (a.p,)
    if isinstance(a, Tup):
        return a.xs
    if isinstance(a, Seq):
        return (a.body,)
    if isinstance(a, (Op, BArr)):
        return (a.t,)
    if isinstance(a, StrL):
        return (a.fr,)
    if isinstance(a, Node):
        return (a.atom[1:], a.hi, a.lo)
    if isinstance(a, IntL):
        return (a.a,)
    if isinstance(a, npmodel._K):
        return (a.k,)
    return ()


def walk(a, seqs=()):
    """All constituents with the sequences they are bound in."""
    yield a, seqs
    if isinstance(a, Seq):
        if a.n is not None:
            yield a.n, seqs
        yield from walk(a.body, seqs + (a,))
        return
    for x in parts(a):
        yield from walk(x, seqs)


class Unsure(Exception):
    """The analysis cannot tell."""


class Found(Exception):
    """The forbidden dependence exists."""


# ---------------------------------------------------------------- C17


class LookAhead:
    """How far past its own step a value reads the series."""

    def __init__(self, it, val):
        self.s = System(it)
        self.val = resolve(it, val)
        self.it = it
        self.L = {}

    def check(self):
        """None when the rows read nothing ahead; raises Found / Unsure."""
        w = has_unk(self.val)
        if w:
            raise Unsure(w)
        rids = self.s.reach([self.val])
        for r in rids:
            d = self.s.recs[r]
            w = has_unk(d.value)
            if w:
                raise Unsure(w)
            if d.outer:
                raise Unsure("nested loop")
        self.s.find_sym(rids)
        # offsets of the recurrences: value at index j reads the series up to index j + L
        self.L = {r: -10 for r in rids}
        for rnd in range(14):
            new = {}
            for r in rids:
                d = self.s.recs[r]
                with Ranges(**{d.j: (Aff(0), d.T)}):
                    m = self.ahead(d.value, sym(d.j), "the value carried by the loop at %s" % self.label(d))
                new[r] = max(m, self.L[r])
            if new == self.L:
                break
            self.L = new
        else:
            raise Unsure("look-ahead of the carried values does not settle")
        self.rows(self.val)

    def label(self, d):
        from .interp import where

        return where(d.node)

    def rows(self, v):
        for l in leaves(v):
            if isinstance(l, Tup):
                for x in l.xs:
                    self.rows(x)
            elif isinstance(l, Seq):
                if l.n is None:
                    raise Unsure("length not known")
                with Ranges(**{IOTA: (Aff(0), l.n - 1)}):
                    m = self.ahead(self.s.canon(l.body), sym(IOTA), "the estimate of a step", inner=True)
                    if m > 0:
                        raise Found("the estimate of a step reads %d steps ahead" % m)
            elif not isinstance(l, Bot):
                raise Unsure("result %r" % (l,))

    def ahead(self, v, base, what, inner=False):
        """Largest (index read - base) over a gated value."""
        if isinstance(v, Node):
            t = v.atom
            if base.syms() and "N" in {s for x, _ in walk(t[1:]) if isinstance(x, Aff) for s in x.syms()} and t[0] in ("eq0", "ge0"):
                self.length_gate(v, what)
            m = self.key(t[1:], base, what) if t[0] not in ("eq0", "ge0") else -10
            for val in (True, False):
                with Assume(t, val) as asm:
                    if asm.dead:
                        continue
                    x = restrict(v, t, val)
                    b = base
                    if asm.idx is not None or asm.tight:
                        x = self.s.canon(x, asm.idx)
                        if asm.idx:
                            b = base.subst(asm.idx)
                    m = max(m, self.ahead(x, b, what, inner))
            return m
        return self.key(v, base, what)

    def length_gate(self, v, what):
        """A gate on the series length whose branches differ."""
        t = v.atom
        sides = []
        for val in (True, False):
            with Assume(t, val) as asm:
                if asm.dead:
                    return
                sides.append(self.s.canon(restrict(v, t, val), asm.idx))
        with Assume(t, True) as asm:
            other = self.s.canon(sides[1], asm.idx)
            if not self.s.same(sides[0], other, ""):
                return
        raise Found("%s depends on the length of the series: gate %s" % (what, show_atom(t)))

    def key(self, v, base, what):
        m = -10
        for a, seqs in walk(v):
            if isinstance(a, Let) and a.op == "el":
                m = max(m, self.off(a.args[1], base, seqs, what, "%s[%r]" % (a.args[0], a.args[1])))
            elif isinstance(a, Let) and a.op == "rec":
                L = self.L.get(a.args[0], 0)
                if L > -10:
                    m = max(m, self.off(a.args[-1] + L, base, seqs, what, repr(a)))
            elif isinstance(a, Let) and a.op == "int" and "N" in a.args[0].syms():
                raise Found("%s depends on the length of the series" % what)
            elif isinstance(a, Unk):
                raise Unsure(a.why)
        for l in leaves(v) if isinstance(v, (Leaf, Node)) else []:
            if isinstance(l, IntL) and "N" in l.a.syms():
                raise Found("%s depends on the length of the series" % what)
        return m

    def off(self, ix, base, seqs, what, text):
        if seqs and IOTA in ix.syms():
            s = seqs[-1]
            if s.n is None:
                raise Found("%s reads a whole series" % what)
            # bound index: the last element is the furthest
            k = ix.coef(IOTA)
            ix = ix.subst({IOTA: s.n - 1}) if k > 0 else ix.subst({IOTA: Aff(0)})
        d = ix - base
        h = hi(d)
        if h is None:
            # arrays may be just as long as the data
            d = d.subst({s: Aff(0) for s in d.syms() if s[0] == "x" and (RANGES.get(s) or (None,))[0] == Aff(0)})
            if d.syms() and all(s in ("N", IOTA) or s in self.js() for s in d.syms()):
                raise Found("%s reads %s, any distance ahead" % (what, text))
            raise Unsure("index %r" % (d,))
        if isinstance(h, Aff):
            h = h.c
        return int(h)

    def js(self):
        return {d.j for d in self.s.recs.values()}


# ---------------------------------------------------------------- C18


def closure_letters(it, vals, names):
    """First letter or condition among `names` that the values depend on, following recurrences."""
    recs = it.recs
    todo = [(v, "") for v in vals]
    seen = set()
    while todo:
        v, via = todo.pop()
        for a, _ in walk(v):
            if isinstance(a, Unk):
                raise Unsure(a.why)
            if isinstance(a, tuple) and len(a) > 1 and a[0] == "unk":
                raise Unsure(str(a[1:]))
            if isinstance(a, Let):
                if a.op in ("el", "par") and a.args[0] in names:
                    return "%s%s" % (a.args[0], via)
                if a.op == "rec" and a.args[0] not in seen and a.args[0] in recs:
                    seen.add(a.args[0])
                    todo.append((recs[a.args[0]].value, " through %s" % a.args[0].split("#")[0]))
            elif isinstance(a, Node) and a.atom[0] == "none" and a.atom[1] in names:
                return "whether %s is given%s" % (a.atom[1], via)
            elif isinstance(a, Node) and a.atom[0] == "inexact":
                return "the type of %s" % (a.atom[1],)
    return None


# ---------------------------------------------------------------- C23

DATA = ("Z", "U", "x0", "zk", "uk", "xk")
NONLIN = {"abs", "absolute", "clip", "minimum", "maximum", "sqrt", "square", "exp", "log", "round", "rint", "around", "sign", "tanh", "sin", "cos", "power", "floor", "ceil", "fmin", "fmax", "nan_to_num", "median", "sort", "max", "min", "amax", "amin", "argmax", "argmin", "var", "std", "div", "div0", "hypot", "emul", "Pow", "Mod", "FloorDiv"}
FREE_GATES = ("none", "eq0", "ge0", "inexact")


class Degree:
    """Degree of homogeneity of values in the data."""

    def __init__(self, it):
        self.it = it
        self.d = {}

    def value(self, v):
        """Set of degrees occurring in the words of a gated value."""
        out = set()
        if isinstance(v, Node):
            self.gate(v.atom)
            return self.value(v.hi) | self.value(v.lo)
        if isinstance(v, Num):
            if v.p == NANP:
                return set()
            for w, c in v.p.m:
                x = self.word(w)
                if x is not None:
                    out.add(x)
            return out
        if isinstance(v, Tup):
            for x in v.xs:
                out |= self.value(x)
            return out
        if isinstance(v, Seq):
            return self.value(v.body)
        if isinstance(v, Bot):
            return set()
        if isinstance(v, Unk):
            raise Unsure(v.why)
        raise Unsure("value %r" % (v,))

    def gate(self, a):
        if a[0] in FREE_GATES:
            return
        if a[0] == "unk":
            raise Unsure(str(a))
        if a[0] == "all" and isinstance(a[1], tuple) and a[1][0] == "isnan":
            return
        if self.touches(a):
            raise Found("a condition on the data selects between results: %s" % show_atom(a))

    def touches(self, k):
        for x, _ in walk(k):
            if isinstance(x, Let):
                if x.op in ("el", "par") and x.args[0] in DATA:
                    return True
                if x.op == "rec" and any(e != 0 for e in self.d.get(x.args[0], ())):
                    return True
        return False

    def word(self, w):
        n = 0
        for l in w:
            d = self.letter(l)
            if d is None:
                return None
            n += d
        return n

    def letter(self, l):
        if l.op in ("el", "par"):
            return 1 if l.args[0] in DATA else 0
        if l.op == "rec":
            s = self.d.get(l.args[0])
            if not s:
                return None
            if len(s) > 1:
                raise Found("%s mixes terms of degrees %s in the data" % (l.args[0].split("#")[0], sorted(s)))
            return next(iter(s))
        if not self.touches(l.args):
            return 0
        if l.op == "np" and l.args[0] in ("mul", "Mult") and all(isinstance(x, Poly) for x in l.args[1:]):
            n = 0
            for x in l.args[1:]:
                ds = self.value(Num(x))
                if len(ds) > 1:
                    raise Found("a product mixes terms of degrees %s in the data" % sorted(ds))
                if not ds:
                    return None
                n += next(iter(ds))
            return n
        if l.op == "inv":
            raise Found("the data enter an inverse")
        if l.op == "np" and str(l.args[0]).split(".")[-1] == "where" and len(l.args) == 4:
            c = l.args[1].t if isinstance(l.args[1], BArr) else l.args[1]
            if isinstance(c, tuple) and c and c[0] == "op" and c[1] in ("Lt", "LtE", "Gt", "GtE") and self.touches(c) and l.args[2] != l.args[3]:
                raise Found("a comparison of the data selects between results: %r" % (l,))
        if l.op == "np" and l.args[0] == "setitem" and len(l.args) == 4:
            c = l.args[2].t if isinstance(l.args[2], BArr) else l.args[2]
            if isinstance(c, tuple) and c and c[0] == "op" and c[1] in ("Lt", "LtE", "Gt", "GtE") and self.touches(c) and l.args[1] != l.args[3]:
                raise Found("a comparison of the data selects which elements are replaced: %r" % (l,))
        if l.op == "np" and l.args[0] == "full" and isinstance(l.args[1], Poly):
            ds = self.value(Num(l.args[1]))
            if len(ds) > 1:
                raise Found("an array mixes terms of degrees %s in the data" % sorted(ds))
            return next(iter(ds)) if ds else None
        if l.op == "np" and l.args and str(l.args[0]).split(".")[-1] in NONLIN:
            raise Found("the data enter %s" % l.args[0])
        raise Unsure("data inside %r" % (l,))

    def solve(self, vals):
        s = System(self.it)
        rids = s.reach(vals)
        for rnd in range(len(rids) + 4):
            new = {}
            for r in s.order(rids):
                new[r] = self.value(s.recs[r].value) | self.d.get(r, set())
                self.d[r] = new[r]
                if len(new[r]) > 1:
                    raise Found("%s mixes terms of degrees %s in the data" % (r.split("#")[0], sorted(new[r])))
            if rnd and new == old:
                break
            old = dict(new)
