"""Abstract domain of the value-graph analysis.

* Aff    - affine integer expressions over symbols (series length, dimensions, loop counters)
* Let    - a letter of the matrix algebra (model entry, recurrence variable, opaque application ...)
* Poly   - non-commutative polynomial over letters in normal form
* leaves - abstract Python values
* Node   - gated value: an ordered decision diagram over atomic conditions with value leaves
"""
from fractions import Fraction

# ----------------------------------------------------------------------------
# affine integers


class Aff:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c=0, t=()):
        self.c = c
        if isinstance(t, dict):
            t = tuple(sorted((s, k) for s, k in t.items() if k != 0))
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Aff) and self.c == o.c and self.t == o.t

    def __add__(self, o):
        o = aff(o)
        d = dict(self.t)
        for s, k in o.t:
            d[s] = d.get(s, 0) + k
        return Aff(self.c + o.c, d)

    def __neg__(self):
        return Aff(-self.c, tuple((s, -k) for s, k in self.t))

    def __sub__(self, o):
        return self + (-aff(o))

    def scale(self, k):
        if k == 0:
            return Aff(0)
        return Aff(self.c * k, tuple((s, v * k) for s, v in self.t))

    def is_const(self):
        return not self.t

    def coef(self, s):
        for q, k in self.t:
            if q == s:
                return k
        return 0

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        r = Aff(self.c)
        for s, k in self.t:
            r = r + (m[s].scale(k) if s in m else Aff(0, ((s, k),)))
        return r

    def __repr__(self):
        out = ""
        for s, k in self.t:
            if k == 1:
                out += "+" + s
            elif k == -1:
                out += "-" + s
            else:
                out += "%+d*%s" % (k, s)
        if self.c or not out:
            out += "%+d" % self.c if out else str(self.c)
        return out[1:] if out.startswith("+") else out


def aff(x):
    return x if isinstance(x, Aff) else Aff(int(x))


def sym(s):
    return Aff(0, ((s, 1),))


IOTA = "i$"

# ranges of symbols: sym -> (lo Aff, hi Aff or None)
RANGES = {}


def set_range(s, lo, hi):
    RANGES[s] = (lo, hi)


def _bound(a, upper):
    """Upper/lower bound of an affine expression as an int, or None."""
    for _ in range(40):
        pick = None
        for s, k in a.t:
            r = RANGES.get(s)
            if r is None:
                continue
            want_hi = (k > 0) == upper
            b = r[1] if want_hi else r[0]
            if b is None:
                continue
            # eliminate loop-like symbols (bounded by expressions) first
            prio = 0 if (r[1] is not None) else 1
            if pick is None or prio < pick[0]:
                pick = (prio, s, b)
        if pick is None:
            break
        a = a.subst({pick[1]: pick[2]})
    return a.c if not a.t else None


def worst(a):
    """The least an affine expression can be, in terms of the lengths of the inputs; None when other symbols remain."""
    for _ in range(40):
        pick = None
        for s, k in a.t:
            r = RANGES.get(s)
            if r is None:
                return None
            b = r[0] if k > 0 else r[1]
            if b is None:
                continue
            prio = 0 if r[1] is not None else 1
            if pick is None or prio < pick[0]:
                pick = (prio, s, b)
        if pick is None:
            break
        a = a.subst({pick[1]: pick[2]})
    return a


def lo(a):
    return _bound(a, False)


def hi(a):
    return _bound(a, True)


# ----------------------------------------------------------------------------
# letters and polynomials


class Let:
    """A letter.  op/args identify it; tr marks transposition; shape is advisory."""

    __slots__ = ("op", "args", "tr", "sym", "shape", "_h", "_r")

    def __init__(self, op, args=(), tr=False, sym=False, shape=None):
        self.op = op
        self.args = args
        self.sym = sym
        self.tr = False if sym else tr
        self.shape = shape
        self._h = hash((op, args, self.tr))
        self._r = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (
            isinstance(o, Let)
            and self._h == o._h
            and self.op == o.op
            and self.tr == o.tr
            and self.args == o.args
        )

    def T(self):
        if self.sym:
            return self
        return Let(self.op, self.args, not self.tr, False, self.shape)

    def __repr__(self):
        if self._r is None:
            a = self.args
            if self.op == "el":
                s = "%s[%r]" % (a[0], a[1])
            elif self.op == "par":
                s = a[0]
            elif self.op == "inv":
                s = "inv(%r)" % (a[0],)
            elif self.op == "rec":
                s = "%s[%s]" % (a[0], ",".join(map(repr, a[1:])))
            elif self.op == "app":
                s = "%s(%s)" % (a[0], ", ".join(map(repr, a[1:])))
            else:
                s = "%s<%s>" % (self.op, ", ".join(map(repr, a)))
            self._r = s + ("'" if self.tr else "")
        return self._r


def is_square(l):
    s = l.shape
    return s is not None and len(s) == 2 and s[0] == s[1]


class Poly:
    __slots__ = ("m", "_h", "_r")

    def __init__(self, m):
        # m: dict word(tuple of Let) -> Fraction
        self.m = tuple(sorted(((w, c) for w, c in m.items() if c != 0), key=lambda x: (len(x[0]), repr(x[0]))))
        self._h = hash(self.m)
        self._r = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self._h == o._h and self.m == o.m

    def is_zero(self):
        return not self.m

    def items(self):
        return self.m

    def letters(self):
        for w, _ in self.m:
            for l in w:
                yield l

    def __repr__(self):
        if self._r is None:
            if not self.m:
                self._r = "0"
            else:
                out = []
                for w, c in self.m:
                    body = "·".join(map(repr, w)) if w else "I"
                    if c == 1:
                        out.append("+ " + body)
                    elif c == -1:
                        out.append("- " + body)
                    else:
                        out.append("%s %s*%s" % ("+" if c > 0 else "-", str(abs(c)), body))
                s = " ".join(out)
                self._r = s[2:] if s.startswith("+ ") else s
        return self._r


ZERO = Poly({})
IDENT = Poly({(): Fraction(1)})


def P_let(l):
    return Poly({(l,): Fraction(1)})


def P_add(a, b, k=1):
    d = dict(a.m)
    for w, c in b.m:
        d[w] = d.get(w, 0) + k * c
    return Poly(d)


def P_scale(a, k):
    if k == 0:
        return ZERO
    return Poly({w: c * k for w, c in a.m})


def P_T(a):
    d = {}
    for w, c in a.m:
        v = tuple(l.T() for l in reversed(w))
        d[v] = d.get(v, 0) + c
    return Poly(d)


def _pivot(S):
    """Single-letter monomial used to orient inv(S)*S = I as a rewrite rule."""
    best = None
    for w, c in S.m:
        if len(w) == 1 and w[0].op != "inv":
            if best is None or repr(w[0]) > repr(best[0]):
                best = (w[0], c)
    return best


_MUL = {}


def _inv_rule(a, b):
    """Rewrite of two adjacent letters a*b, or None."""
    for x, y, left in ((a, b, True), (b, a, False)):
        if x.op == "inv":
            S = x.args[0]
            if x.tr:
                S = P_T(S)
            if S.m and len(S.m) == 1 and S.m[0][0] == (y,):
                return Poly({(): 1 / S.m[0][1]})
            p = _pivot(S)
            if p is not None and p[0] == y:
                rest = P_add(S, Poly({(y,): p[1]}), -1)
                if left:
                    prod = P_mul(P_let(x), rest)
                else:
                    prod = P_mul(rest, P_let(x))
                return P_scale(P_add(IDENT, prod, -1), 1 / p[1])
    return None


def _word_norm(w):
    """Normalise a word: returns Poly."""
    for i in range(len(w) - 1):
        if w[i].op == "inv" or w[i + 1].op == "inv":
            r = _inv_rule(w[i], w[i + 1])
            if r is not None:
                out = P_mul(Poly({w[:i]: Fraction(1)}), r)
                return P_mul(out, Poly({w[i + 2 :]: Fraction(1)}))
    return None


class Budget(Exception):
    pass


BUDGET = [None]


def P_mul(a, b):
    if BUDGET[0] is not None:
        BUDGET[0] -= 1 + len(a.m) * len(b.m)
        if BUDGET[0] < 0:
            raise Budget()
    d = {}
    extra = []
    for w1, c1 in a.m:
        for w2, c2 in b.m:
            w = w1 + w2
            r = None
            if w1 and w2 and (w1[-1].op == "inv" or w2[0].op == "inv"):
                r = _word_norm(w)
            if r is None:
                d[w] = d.get(w, 0) + c1 * c2
            else:
                extra.append(P_scale(r, c1 * c2))
    out = Poly(d)
    for e in extra:
        out = P_add(out, e)
    return out


def P_inv(S):
    if len(S.m) == 1:
        w, c = S.m[0]
        if not w:
            return Poly({(): 1 / c})
        if len(w) == 1 and w[0].op == "inv":
            inner = w[0].args[0]
            if w[0].tr:
                inner = P_T(inner)
            return P_scale(inner, 1 / c)
        if len(w) > 1 and all(is_square(l) or l.op == "inv" for l in w):
            out = Poly({(): 1 / c})
            for l in reversed(w):
                out = P_mul(out, P_inv(P_let(l)))
            return out
    if not S.m:
        return P_let(Let("np", ("inv", S)))
    lead = S.m[0][1]
    Sn = P_scale(S, 1 / lead)
    symm = P_T(Sn) == Sn
    # canonical orientation for non symmetric arguments
    if not symm:
        St = P_T(Sn)
        if repr(St) < repr(Sn):
            return P_scale(P_let(Let("inv", (St,), True, False)), 1 / lead)
    return P_scale(P_let(Let("inv", (Sn,), False, symm)), 1 / lead)


# ----------------------------------------------------------------------------
# leaves


class Leaf:
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))

    def __repr__(self):
        return "%s(%r)" % (type(self).__name__, self.key())


class Bot(Leaf):
    """Unreachable / undefined: don't care."""

    __slots__ = ()

    def key(self):
        return ()


BOT = Bot()


class C(Leaf):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        return (type(self.v).__name__, repr(self.v))

    def __repr__(self):
        return repr(self.v)


TRUE, FALSE, NONE = C(True), C(False), C(None)


class IntL(Leaf):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = aff(a)

    def key(self):
        return self.a

    def __repr__(self):
        return repr(self.a)


class Num(Leaf):
    """Numeric scalar or array known by its polynomial."""

    __slots__ = ("p", "shape", "owner", "dt")

    def __init__(self, p, shape=None, owner=frozenset(), dt=None):
        self.p = p
        self.shape = shape
        self.owner = owner
        self.dt = dt

    def key(self):
        return self.p

    def __repr__(self):
        return repr(self.p)


class BArr(Leaf):
    """Boolean array described by a term: ('isnan', x) | ('not', t) | ('const', b) | ('op', ...)"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return self.t


class Seq(Leaf):
    """A sequence: length and element value as a function of IOTA."""

    __slots__ = ("n", "body", "kind", "owner", "dt", "ext")

    def __init__(self, n, body, kind="array", owner=frozenset(), dt=None, ext=None):
        self.n = n
        self.body = body
        self.kind = kind
        self.owner = owner
        self.dt = dt
        self.ext = ext

    def key(self):
        return (self.n, self.body)

    def __repr__(self):
        return "[%r for i$<%r]" % (self.body, self.n)


class Ref(Leaf):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def key(self):
        return self.id


class Tup(Leaf):
    __slots__ = ("xs", "names")

    def __init__(self, xs, names=None):
        self.xs = tuple(xs)
        self.names = names

    def key(self):
        return self.xs

    def __repr__(self):
        return "(" + ", ".join(map(repr, self.xs)) + ")"


class SliceL(Leaf):
    __slots__ = ("a", "b", "s")

    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def key(self):
        return (self.a, self.b, self.s)


class StrL(Leaf):
    """String as a sequence of fragments (literal str or hashable terms)."""

    __slots__ = ("fr",)

    def __init__(self, fr):
        out = []
        for f in fr:
            if isinstance(f, str):
                if not f:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += f
                    continue
            out.append(f)
        self.fr = tuple(out)

    def key(self):
        return self.fr

    def __repr__(self):
        return "".join(f if isinstance(f, str) else "{%s}" % (pretty(f),) for f in self.fr)


class Op(Leaf):
    """Opaque value with a known (free) term."""

    __slots__ = ("t", "owner")

    def __init__(self, t, owner=frozenset()):
        self.t = t
        self.owner = owner

    def key(self):
        return self.t

    def __repr__(self):
        return pretty(self.t)


class Unk(Leaf):
    """Value the analysis could not model (reason kept for the report)."""

    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def key(self):
        return self.why

    def __repr__(self):
        return "UNKNOWN[%s]" % self.why


class Fun(Leaf):
    """Callable: kind + payload (kept hashable through ids)."""

    __slots__ = ("kind", "data")

    def __init__(self, kind, data):
        self.kind = kind
        self.data = data

    def key(self):
        return (self.kind, self.data)


def pretty(t):
    if isinstance(t, tuple):
        if t and t[0] == "item" and len(t) == 3:
            return "%s[%s]" % (pretty(t[1]), pretty(t[2]))
        return "%s(%s)" % (t[0], ", ".join(map(pretty, t[1:]))) if t and isinstance(t[0], str) else repr(t)
    return t if isinstance(t, str) else repr(t)


# ----------------------------------------------------------------------------
# gated values

_ORD = {}


def akey(atom):
    k = _ORD.get(atom)
    if k is None:
        k = _ORD[atom] = (atom[0] not in ("eq0", "ge0"), atom[0], repr(atom))
    return k


class Node:
    __slots__ = ("atom", "hi", "lo", "_h")

    def __init__(self, atom, hi, lo):
        self.atom, self.hi, self.lo = atom, hi, lo
        self._h = hash((atom, hi, lo))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return (
            isinstance(o, Node)
            and self._h == o._h
            and self.atom == o.atom
            and self.hi == o.hi
            and self.lo == o.lo
        )

    def __repr__(self):
        return "{%s ? %r : %r}" % (show_atom(self.atom), self.hi, self.lo)


def show_atom(a):
    if a[0] == "eq0":
        return "%r==0" % (a[1],)
    if a[0] == "ge0":
        return "%r>=0" % (a[1],)
    if a[0] == "none":
        return "%s is None" % (a[1],)
    return "%s(%s)" % (a[0], ", ".join(map(str, map(pretty, a[1:]))))


def merge_same(a, b):
    """a == b; keep union of ownership information."""
    if isinstance(a, Num) and a.owner != b.owner:
        return Num(a.p, a.shape if a.shape is not None else b.shape, a.owner | b.owner, a.dt or b.dt)
    return a


def top(v):
    return v.atom if isinstance(v, Node) else None


def mk(atom, hi_, lo_):
    if hi_ is BOT or isinstance(hi_, Bot):
        return lo_
    if isinstance(lo_, Bot):
        return hi_
    if hi_ == lo_:
        return merge_same(hi_, lo_) if not isinstance(hi_, Node) else hi_
    k = akey(atom)
    for x in (hi_, lo_):
        if isinstance(x, Node) and akey(x.atom) <= k:
            return ite(Node(atom, TRUE, FALSE), hi_, lo_)
    return Node(atom, hi_, lo_)


def cof(v, atom, val):
    if isinstance(v, Node) and v.atom == atom:
        return v.hi if val else v.lo
    return v


def restrict(v, atom, val):
    """Full restriction (atom anywhere in the diagram)."""
    if not isinstance(v, Node):
        return v
    if v.atom == atom:
        return restrict(v.hi if val else v.lo, atom, val)
    if akey(v.atom) > akey(atom):
        return v
    return mk(v.atom, restrict(v.hi, atom, val), restrict(v.lo, atom, val))


def ite(c, a, b):
    if isinstance(c, Leaf):
        if isinstance(c, Bot):
            return BOT
        if c == TRUE:
            return a
        if c == FALSE:
            return b
        raise TypeError("ite on %r" % (c,))
    if isinstance(a, Bot):
        return b
    if isinstance(b, Bot):
        return a
    if a == b and not isinstance(a, Leaf):
        return a
    t = None
    for x in (c, a, b):
        if isinstance(x, Node) and (t is None or akey(x.atom) < akey(t)):
            t = x.atom
    h = ite(cof(c, t, True), cof(a, t, True), cof(b, t, True))
    l = ite(cof(c, t, False), cof(a, t, False), cof(b, t, False))
    if isinstance(h, Bot):
        return l
    if isinstance(l, Bot):
        return h
    if h == l:
        return merge_same(h, l) if not isinstance(h, Node) else h
    return Node(t, h, l)


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def atom_v(atom):
    """Boolean value of an atom, simplified."""
    if atom[0] == "eq0":
        a = atom[1]
        if a.is_const():
            return TRUE if a.c == 0 else FALSE
        l, h = lo(a), hi(a)
        if (l is not None and l > 0) or (h is not None and h < 0):
            return FALSE
        if l == 0 and h == 0:
            return TRUE
        if a.t[0][1] < 0:
            a = -a
        return Node(("eq0", a), TRUE, FALSE)
    if atom[0] == "ge0":
        a = atom[1]
        if a.is_const():
            return TRUE if a.c >= 0 else FALSE
        l, h = lo(a), hi(a)
        if l is not None and l >= 0:
            return TRUE
        if h is not None and h < 0:
            return FALSE
        if h == 0:
            return atom_v(("eq0", a))
        if l == -1:
            return b_not(atom_v(("eq0", a + 1)))
        if a.t[0][1] < 0:
            return b_not(Node(("ge0", -a - 1), TRUE, FALSE))
        return Node(("ge0", a), TRUE, FALSE)
    return Node(atom, TRUE, FALSE)


def leaves(v, out=None):
    if out is None:
        out = []
    if isinstance(v, Node):
        leaves(v.hi, out)
        leaves(v.lo, out)
    else:
        out.append(v)
    return out


def atoms_of(v, out=None):
    if out is None:
        out = set()
    if isinstance(v, Node):
        out.add(v.atom)
        atoms_of(v.hi, out)
        atoms_of(v.lo, out)
    return out


def lift(f, g, *vs):
    """Apply f to leaf combinations under guard g; f returns a gated value."""
    if isinstance(g, Leaf):
        if g == FALSE or isinstance(g, Bot):
            return BOT
    t = None
    for x in (g,) + vs:
        if isinstance(x, Node) and (t is None or akey(x.atom) < akey(t)):
            t = x.atom
    if t is None:
        if any(isinstance(x, Bot) for x in vs):
            return BOT
        return f(*vs)
    CUBE.append((t, True))
    try:
        h = lift(f, cof(g, t, True), *[cof(x, t, True) for x in vs])
    finally:
        CUBE.pop()
    CUBE.append((t, False))
    try:
        l = lift(f, cof(g, t, False), *[cof(x, t, False) for x in vs])
    finally:
        CUBE.pop()
    return mk(t, h, l)


CUBE = []


def cube_guard(start=0):
    g = TRUE
    for atom, val in CUBE[start:]:
        n = Node(atom, TRUE, FALSE)
        g = b_and(g, n if val else b_not(n))
    return g


# ----------------------------------------------------------------------------
# generic rebuilding (substitution)


class Rebuild:
    """Rebuild values under an index substitution and a letter mapping.

    letter: optional callable Let -> gated value (Num leaf) or None to rebuild structurally.
    """

    def __init__(self, idx=None, letter=None):
        self.idx = idx or {}
        self.letter = letter
        self.memo = {}

    def key(self, k):
        """Rebuild an argument inside letters/atoms; must stay un-gated."""
        if isinstance(k, Aff):
            return k.subst(self.idx)
        if isinstance(k, Poly):
            r = self.poly(k)
            if isinstance(r, Num):
                return r.p
            return r
        if isinstance(k, Let):
            r = self.let(k)
            return r
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, (Leaf, Node)):
            return self.value(k)
        return k

    def let(self, l):
        """Letter -> gated Num."""
        m = self.memo.get(l)
        if m is not None:
            return m
        r = self.letter(l) if self.letter else None
        if r is None:
            if l.op == "inv":
                S = self.poly(l.args[0])

                def f(s):
                    p = P_inv(s.p)
                    return Num(P_T(p) if l.tr else p, l.shape)

                r = lift(f, TRUE, S)
            else:
                parts = [self.key(a) for a in l.args]
                # gated arguments are hoisted out of the application
                r = _hoist(parts, lambda xs: Num(P_let(Let(l.op, tuple(xs), l.tr, l.sym, l.shape)), l.shape))
        self.memo[l] = r
        return r

    def poly(self, p):
        acc = Num(ZERO)
        for w, c in p.m:
            t = Num(Poly({(): c}))
            for l in w:
                t = lift(lambda a, b: Num(P_mul(a.p, b.p)), TRUE, t, self.let(l))
            acc = lift(lambda a, b: Num(P_add(a.p, b.p)), TRUE, acc, t)
        return acc

    def atom(self, a):
        parts = [self.key(x) for x in a[1:]]
        return _hoist(parts, lambda xs: simp_atom((a[0],) + tuple(xs)))

    def leaf(self, v):
        if isinstance(v, IntL):
            return IntL(v.a.subst(self.idx))
        if isinstance(v, Num):
            r = self.poly(v.p)
            sh = tuple(d.subst(self.idx) if isinstance(d, Aff) else d for d in v.shape) if v.shape is not None else None
            return lift(lambda x: Num(x.p, sh, v.owner, v.dt), TRUE, r)
        if isinstance(v, Tup):
            return Tup([self.value(x) for x in v.xs], v.names)
        if isinstance(v, BArr):
            return _hoist([self.key(v.t)], lambda xs: BArr(xs[0]))
        if isinstance(v, Op):
            return _hoist([self.key(v.t)], lambda xs: Op(xs[0], v.owner))
        if isinstance(v, StrL):
            return _hoist([self.key(v.fr)], lambda xs: StrL(xs[0]))
        if isinstance(v, Seq):
            idx = {k: a for k, a in self.idx.items() if k != IOTA}
            sub = Rebuild(idx, self.letter)
            return Seq(v.n.subst(self.idx) if v.n is not None else None, sub.value(v.body), v.kind, v.owner, v.dt, v.ext)
        if isinstance(v, SliceL):
            return SliceL(*[self.value(x) for x in (v.a, v.b, v.s)])
        return v

    def value(self, v):
        if isinstance(v, Node):
            return ite(self.atom(v.atom), self.value(v.hi), self.value(v.lo))
        return self.leaf(v)


def _flat_nodes(x):
    if isinstance(x, Node):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _flat_nodes(y)


def _unwrap(x):
    """Inside keys, Num leaves are stored as their polynomial."""
    if isinstance(x, Num):
        return x.p
    if isinstance(x, tuple):
        return tuple(_unwrap(y) for y in x)
    return x


def _cofx(x, atom, val):
    if isinstance(x, Node):
        return cof(x, atom, val)
    if isinstance(x, tuple):
        return tuple(_cofx(y, atom, val) for y in x)
    return x


def _hoist(parts, build):
    """build(parts) with gates inside parts moved outside."""
    parts = tuple(parts)
    t = None
    for n in _flat_nodes(parts):
        if t is None or akey(n.atom) < akey(t):
            t = n.atom
    if t is None:
        return build(list(_unwrap(parts)))
    h = _hoist(_cofx(parts, t, True), build)
    l = _hoist(_cofx(parts, t, False), build)
    return mk(t, h, l)


def simp_atom(a):
    if a[0] in ("eq0", "ge0"):
        return atom_v(a)
    if a[0] == "all":
        return all_atom(a[1])
    return Node(a, TRUE, FALSE)


NANP = P_let(Let("nan", ()))


def all_atom(t):
    """'every element of boolean array t is true'"""
    if t[0] == "const":
        return TRUE if t[1] else FALSE
    if t[0] == "isnan":
        x = t[1]
        if isinstance(x, Poly):
            if x == NANP:
                return TRUE
            if x.is_zero() or x == IDENT:
                return FALSE
            if len(x.m) == 1 and len(x.m[0][0]) == 1 and x.m[0][0][0].op == "castnan":
                return Node(("inexact", x.m[0][0][0].args[0]), TRUE, FALSE)
        if isinstance(x, Seq) and isinstance(x.body, Num):
            return all_atom(("isnan", x.body.p)) if x.body.p == NANP or (x.body.p.m and x.body.p.m[0][0] and x.body.p.m[0][0][0].op == "castnan") else Node(("all", t), TRUE, FALSE)
    if t[0] == "not" and t[1][0] == "const":
        return FALSE if t[1][1] else TRUE
    if t[0] == "not" and t[1][0] == "not":
        return all_atom(t[1][1])
    if t[0] == "not" and t[1][0] == "isnan":
        x = t[1][1]
        if isinstance(x, Poly):
            if x == NANP:
                return FALSE
            if x.is_zero():
                return TRUE
    return Node(("all", t), TRUE, FALSE)


def subst(v, idx):
    if not idx:
        return v
    return Rebuild(idx).value(v)
