"""Transfer functions for Python builtins and numpy.

Known linear-algebra functions are interpreted in the matrix algebra of ``terms``; every other
numpy function becomes an opaque (free) application of its arguments.
"""
import ast
import math

from .terms import *  # noqa: F401,F403
from .terms import _hoist
from .loader import where

CUR = None

ALIAS = {"np": "numpy"}

RNG_MODS = ("random", "numpy.random", "secrets")
CLOCK_MODS = ("time", "datetime")
PURE_EXT = ("typing", "collections", "collections.abc", "abc", "functools", "itertools", "operator", "dataclasses", "math", "numbers", "enum", "copy", "contextlib", "warnings", "__future__", "types", "re")


def canon(name):
    return ALIAS.get(name, name)


# ---------------------------------------------------------------- keys


def keyof(l):
    if isinstance(l, Num):
        return l.p
    if isinstance(l, IntL):
        return l.a
    if isinstance(l, Op):
        return l.t
    if isinstance(l, StrL):
        return ("str", l.fr)
    if isinstance(l, Ref) and CUR is not None:
        s = CUR.as_seq(l, None)
        if isinstance(s, Seq):
            return Seq(s.n, s.body, "list")
        return ("ref", l.id)
    if isinstance(l, Seq):
        return Seq(l.n, l.body, "list")
    if isinstance(l, Tup):
        return ("tuple",) + tuple(keyofv(x) for x in l.xs)
    if isinstance(l, SliceL):
        return ("slice", keyofv(l.a), keyofv(l.b), keyofv(l.s))
    if isinstance(l, Fun):
        return ("fun", l.kind, l.data if not isinstance(l.data, tuple) else repr(l.data))
    return l


def keyofv(v):
    """Key of a gated value (gates kept; hoisted by the consumer)."""
    if isinstance(v, Node):
        return Node(v.atom, _nk(keyofv(v.hi)), _nk(keyofv(v.lo))) if not (isinstance(v.hi, Bot) or isinstance(v.lo, Bot)) else keyofv(v.lo if isinstance(v.hi, Bot) else v.hi)
    return keyof(v)


class _K(Leaf):
    """Arbitrary key wrapped as a leaf so that it can sit in a gated value."""

    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def key(self):
        return self.k


def _nk(k):
    return k if isinstance(k, (Leaf, Node)) else _K(k)


def unk(k):
    return k.k if isinstance(k, _K) else k


def opaque_num(name, keys, shape=None):
    """Free application as a numeric letter; gates inside keys are hoisted."""
    return _hoist(tuple(keys), lambda xs: Num(P_let(Let("np", (name,) + tuple(unk(x) for x in xs), False, False, shape)), shape))


def opaque(name, keys):
    return _hoist(tuple(keys), lambda xs: Op((name,) + tuple(unk(x) for x in xs)))


# ---------------------------------------------------------------- numbers


def is_number(l):
    return isinstance(l, IntL) or isinstance(l, C) and isinstance(l.v, (int, float, bool)) and l.v is not None


def to_num_leaf(it, l):
    if isinstance(l, Num):
        return l
    if isinstance(l, IntL):
        if l.a.is_const():
            return Num(P_scale(IDENT, Fraction(l.a.c)), (), frozenset(), "i8")
        return Num(P_let(Let("int", (l.a,), False, True, ())), (), frozenset(), "i8")
    if isinstance(l, C):
        if isinstance(l.v, bool):
            return Num(P_scale(IDENT, Fraction(int(l.v))), ())
        if isinstance(l.v, float):
            if math.isnan(l.v):
                return Num(NANP, (), frozenset(), "f8")
            if math.isinf(l.v):
                return Num(P_let(Let("np", ("inf" if l.v > 0 else "-inf",), False, True, ())), (), frozenset(), "f8")
            return Num(P_scale(IDENT, Fraction(l.v)), (), frozenset(), "wf")
    if isinstance(l, Op):
        return Num(P_let(Let("opq", (l.t,))), None, l.owner)
    return l


def as_num(it, l):
    n = to_num_leaf(it, l)
    return n


def ones(shape):
    return shape is not None and all(isinstance(d, Aff) and d == Aff(1) or d == 1 for d in shape)


def dims(shape):
    """Shape without unit axes."""
    return tuple(d for d in shape if aff(d) != Aff(1))


def broadcast_to_ok(shape, row):
    s = list(shape)
    while len(s) > len(row) and aff(s[0]) == Aff(1):
        s.pop(0)
    if len(s) > len(row):
        return False
    for d, r in zip(reversed(s), reversed(row)):
        if aff(d) != aff(r) and aff(d) != Aff(1):
            return False
    return True


def bshape(s1, s2):
    """Broadcast shape, or None if not broadcastable / unknown."""
    if s1 is None or s2 is None:
        return None
    out = []
    a, b = list(s1), list(s2)
    while len(a) < len(b):
        a.insert(0, Aff(1))
    while len(b) < len(a):
        b.insert(0, Aff(1))
    for x, y in zip(a, b):
        x, y = aff(x), aff(y)
        if x == y:
            out.append(x)
        elif x == Aff(1):
            out.append(y)
        elif y == Aff(1):
            out.append(x)
        else:
            return False
    return tuple(out)


def expands(x, out):
    return dims(x) != dims(out)


def fit(it, x, out, node):
    """Operand x of an elementwise operation with result shape out."""
    if out is None or x.shape is None:
        if x.shape == () and not x.p.is_zero():
            return P_let(Let("np", ("full", x.p)))
        return x.p
    if expands(x.shape, out):
        if x.p.is_zero():
            return ZERO
        if x.p == NANP:
            return NANP
        return P_let(Let("np", ("full", x.p, tuple(x.shape)) if x.shape else ("full", x.p), False, False, out))
    if len(x.shape) == 1 and len(out) == 2 and not ones(out):
        # row view of a vector
        return P_T(x.p)
    return x.p


FLOATS = ("f8", "fx", "wf")
"""f8: double; fx: floating, as wide as the inputs; wf: Python float; ("in", x): the type of input x"""


def dtj(a, b):
    """Result type of an operation on two numeric types."""
    if a == "f8" or b == "f8":
        return "f8"
    if a == b:
        return a
    if a is None or b is None:
        return None
    if a == "i8":
        return b
    if b == "i8":
        return a
    if isinstance(a, tuple) and a[0] == "in" and isinstance(b, tuple) and b[0] == "in":
        return ("in", "mixed")
    if a in FLOATS or b in FLOATS:
        return "fx"
    return None


def dtfloat(a):
    """Result type of a division or of a linear solve."""
    if a is None or a in FLOATS:
        return a
    if a == "i8":
        return "f8"
    if isinstance(a, tuple) and a[0] == "in":
        return "fx"
    return a


def isnanp(p):
    return p == NANP


def add(it, x, y, k, node):
    sh = bshape(x.shape, y.shape)
    if sh is False:
        it.ev("shape", "adding shapes %s and %s" % (shp(x.shape), shp(y.shape)), node)
        sh = None
    if isnanp(x.p) or isnanp(y.p):
        return it.fresh(NANP, sh, "f8")
    if sh is None and (x.shape == () or y.shape == ()) and x.shape != y.shape:
        # scalar with something of unknown shape: shape () of unknown letters stays scalar
        pass
    return it.fresh(P_add(fit(it, x, sh, node), fit(it, y, sh, node), k), sh, dtj(x.dt, y.dt))


def shp(s):
    return "?" if s is None else "(" + ", ".join(map(repr, map(aff, s))) + ")"


def is_scalar_const(x):
    return x.shape == () and (x.p.is_zero() or (len(x.p.m) == 1 and x.p.m[0][0] == ()))


def const_of(x):
    return x.p.m[0][1] if x.p.m else Fraction(0)


def mul(it, x, y, node):
    for a, b in ((x, y), (y, x)):
        if is_scalar_const(a):
            if isnanp(b.p):
                return it.fresh(NANP, b.shape, "f8")
            return it.fresh(P_scale(b.p, const_of(a)), b.shape, dtj(a.dt, b.dt))
    if isnanp(x.p) or isnanp(y.p):
        return it.fresh(NANP, bshape(x.shape, y.shape) or None, "f8")
    sh = bshape(x.shape, y.shape)
    if sh is False:
        it.ev("shape", "multiplying shapes %s and %s" % (shp(x.shape), shp(y.shape)), node)
        sh = None
    if x.shape is not None and y.shape is not None and sh is not None and ones(x.shape) and ones(y.shape):
        return it.fresh(P_mul(x.p, y.p), sh, dtj(x.dt, y.dt))
    for a, b in ((x, y), (y, x)):
        if a.shape == () or (a.shape is not None and ones(a.shape) and sh is not None):
            if b.shape is not None and len(b.shape) == 1:
                # (n,1)-(1,) product written elementwise: vector times scalar
                if sh is not None and len(sh) == 1:
                    return it.fresh(P_mul(b.p, a.p), sh, dtj(a.dt, b.dt))
            if b.shape is not None and len(b.shape) == 2 and sh is not None and aff(b.shape[1]) == Aff(1):
                return it.fresh(P_mul(b.p, a.p), sh, dtj(a.dt, b.dt))
            if b.shape is not None and len(b.shape) == 2 and sh is not None and aff(b.shape[0]) == Aff(1):
                return it.fresh(P_mul(a.p, b.p), sh, dtj(a.dt, b.dt))
    # outer product written with broadcasting: (n,1)*(1,n) or (n,1)*(k,)
    if x.shape is not None and y.shape is not None and sh is not None and len(sh) == 2:
        for a, b in ((x, y), (y, x)):
            if len(a.shape) == 2 and aff(a.shape[1]) == Aff(1):
                if len(b.shape) == 2 and aff(b.shape[0]) == Aff(1):
                    return it.fresh(P_mul(a.p, b.p), sh)
                if len(b.shape) == 1:
                    return it.fresh(P_mul(a.p, P_T(b.p)), sh)
    if x.p.is_zero() or y.p.is_zero():
        return it.fresh(ZERO, sh, dtj(x.dt, y.dt))
    ks = sorted((x.p, y.p), key=repr)
    return it.fresh(P_let(Let("np", ("mul", ks[0], ks[1]), False, False, sh)), sh)


def col(x):
    return x.p


def matmul(it, x, y, node):
    a, b = x.shape, y.shape
    if a == () or b == ():
        if a == () and b == () or x.p is None:
            it.exc("ValueError", "matmul of scalars", node)
            return it.fresh(P_mul(x.p, y.p), ())
        it.ev("shape", "matrix product with a scalar operand", node)
        return it.fresh(P_let(Let("np", ("matmul-scalar", x.p, y.p))), None)
    px, py = x.p, y.p
    sh = None
    if a is not None and len(a) == 1 and b is not None and len(b) == 1:
        if aff(a[0]) != aff(b[0]):
            it.ev("shape", "matrix product of shapes %s and %s" % (shp(a), shp(b)), node)
        if isnanp(px) or isnanp(py):
            return it.fresh(NANP, (), "f8")
        return it.fresh(P_mul(P_T(px), py), (), dtj(x.dt, y.dt))
    if a is not None and len(a) == 1:
        # row vector times matrix: keep vectors as columns
        if isnanp(px) or isnanp(py):
            return it.fresh(NANP, (b[1],) if b is not None and len(b) == 2 else None, "f8")
        if b is not None and len(b) == 2:
            if aff(a[0]) != aff(b[0]):
                it.ev("shape", "matrix product of shapes %s and %s" % (shp(a), shp(b)), node)
            sh = (b[1],)
        return it.fresh(P_mul(P_T(py), px), sh, dtj(x.dt, y.dt))
    if a is not None and b is not None and len(a) == 2:
        if aff(a[1]) != aff(b[0]):
            it.ev("shape", "matrix product of shapes %s and %s" % (shp(a), shp(b)), node)
        sh = (a[0],) + tuple(b[1:])
    if isnanp(px) or isnanp(py):
        return it.fresh(NANP, sh, "f8")
    return it.fresh(P_mul(px, py), sh, dtj(x.dt, y.dt))


def transpose(it, x):
    if x.shape is not None and len(x.shape) < 2:
        return x
    own = x.owner
    sh = tuple(reversed(x.shape)) if x.shape is not None else None
    return Num(P_T(x.p) if not isnanp(x.p) else NANP, sh, own, x.dt)


def inverse(it, x, node, kind="inv"):
    it.ev("solve", (kind, x.p), node)
    if x.shape is not None and len(x.shape) == 2 and aff(x.shape[0]) != aff(x.shape[1]):
        it.ev("shape", "inverse of shape %s" % shp(x.shape), node)
    if x.shape is not None and len(x.shape) < 2:
        if kind in ("inv", "solve", "pinv", "lstsq", "chol"):
            it.ev("shape", "inverse of an array of shape %s" % shp(x.shape), node)
    if isnanp(x.p):
        return it.fresh(NANP, x.shape, "f8")
    p = P_inv(x.p)
    return it.fresh(p, x.shape, dtfloat(x.dt))


def divide(it, x, y, node):
    if is_scalar_const(y):
        if y.p.is_zero():
            return it.fresh(P_let(Let("np", ("div0", x.p))), x.shape)
        return it.fresh(P_scale(x.p, 1 / const_of(y)), x.shape, dtfloat(x.dt))
    dt = dtfloat(dtj(x.dt, y.dt))
    if y.shape is not None and ones(y.shape) and x.shape is not None:
        it.ev("solve", ("divide", y.p), node)
        sh = bshape(x.shape, y.shape)
        if ones(x.shape) or len(x.shape) == 1 or (len(x.shape) == 2 and aff(x.shape[1]) == Aff(1)):
            if len(sh) == len(x.shape):
                return it.fresh(P_mul(x.p, P_inv(y.p)), sh, dt)
        if len(x.shape) == 2 and aff(x.shape[0]) == Aff(1):
            return it.fresh(P_mul(P_inv(y.p), x.p), sh, dt)
    return it.fresh(P_let(Let("np", ("div", x.p, y.p))), bshape(x.shape, y.shape) or None, dt)


NUMOPS = {"Add", "Sub", "Mult", "MatMult", "Div", "Pow", "FloorDiv", "Mod"}


def neg(it, l):
    if isinstance(l, IntL):
        return IntL(-l.a)
    if isinstance(l, C) and isinstance(l.v, float):
        return C(-l.v)
    if isinstance(l, (Unk,)):
        return l
    if isinstance(l, Seq):
        return Seq(l.n, it.ap(lambda b: neg(it, b), l.body), l.kind, frozenset(), l.dt)
    if isinstance(l, Ref):
        s = it.as_seq(l, None)
        if isinstance(s, Seq):
            return neg(it, s)
    n = to_num_leaf(it, l)
    if isinstance(n, Num):
        return it.fresh(P_scale(n.p, -1) if not isnanp(n.p) else NANP, n.shape, n.dt)
    return Op(("neg", keyof(l)))


def numop(it, op, x, y, node):
    if op == "Add":
        return add(it, x, y, 1, node)
    if op == "Sub":
        return add(it, x, y, -1, node)
    if op == "Mult":
        return mul(it, x, y, node)
    if op == "MatMult":
        return matmul(it, x, y, node)
    if op == "Div":
        return divide(it, x, y, node)
    if op == "Pow" and is_scalar_const(y) and const_of(y).denominator == 1 and x.shape is not None and ones(x.shape):
        k = int(const_of(y))
        if 0 <= k <= 4:
            r = IDENT
            for _ in range(k):
                r = P_mul(r, x.p)
            return it.fresh(r, x.shape)
        if k == -1:
            return it.fresh(P_inv(x.p), x.shape)
    return it.fresh(P_let(Let("np", (op, x.p, y.p))), bshape(x.shape, y.shape) or None)


def mask_num(it, x, other):
    """A mask in arithmetic: zeros and ones, of the shape of the other operand when that is a series or an array."""
    if not isinstance(x, BArr):
        return x
    n = mask_len(x.t)
    if n is None:
        o = to_num_leaf(it, other)
        return Num(P_let(Let("np", ("mask", x.t), False, False, o.shape if isinstance(o, Num) else None)), o.shape if isinstance(o, Num) else None)
    s, r = seqof(it, other), row_of_mask(x.t)
    if r is None or s is None or s.n != n:
        return Unk("arithmetic with a mask")
    sh = seq_shape(s)
    row = tuple(sh[1:]) if sh is not None else None
    return Seq(n, Num(P_let(Let("np", ("mask", r), False, False, row)), row), "array")


def binop(it, op, x, y, node):
    if isinstance(x, Unk):
        return x
    if isinstance(y, Unk):
        return y
    if (isinstance(x, BArr) or isinstance(y, BArr)) and op in ("Add", "Sub", "Mult", "Div", "Pow"):
        x, y = mask_num(it, x, y), mask_num(it, y, x)
    if isinstance(x, IntL) and isinstance(y, IntL):
        if op == "Add":
            return IntL(x.a + y.a)
        if op == "Sub":
            return IntL(x.a - y.a)
        if op == "Mult":
            if x.a.is_const():
                return IntL(y.a.scale(x.a.c))
            if y.a.is_const():
                return IntL(x.a.scale(y.a.c))
        if x.a.is_const() and y.a.is_const() and y.a.c != 0:
            if op == "FloorDiv":
                return IntL(Aff(x.a.c // y.a.c))
            if op == "Mod":
                return IntL(Aff(x.a.c % y.a.c))
            if op == "Div":
                return C(x.a.c / y.a.c)
            if op == "Pow" and 0 <= y.a.c <= 16:
                return IntL(Aff(x.a.c ** y.a.c))
        if op in ("Div", "FloorDiv", "Mod"):
            return Op(("bin", op, x.a, y.a))
    if isinstance(x, C) and isinstance(y, C) and type(x.v) in (int, float) and type(y.v) in (int, float):
        try:
            return C({"Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b, "Div": lambda a, b: a / b, "Pow": lambda a, b: a ** b}[op](x.v, y.v))
        except (KeyError, ArithmeticError):
            pass
    # strings
    if op == "Add" and (isinstance(x, StrL) or isinstance(x, C) and isinstance(x.v, str)):
        return strcat(x, y)
    if op == "Add" and (isinstance(y, StrL) or isinstance(y, C) and isinstance(y.v, str)) and isinstance(x, Op):
        return strcat(x, y)
    if op == "Mod" and (isinstance(x, C) and isinstance(x.v, str)):
        return percent(it, x.v, y)
    # tuples and lists
    if isinstance(x, Tup) and isinstance(y, Tup) and op == "Add":
        return Tup(x.xs + y.xs)
    if isinstance(x, Ref) and isinstance(y, Ref) and op == "Add":
        rx, ry = it.deref(x), it.deref(y)
        if type(rx).__name__ == "ListR" and type(ry).__name__ == "ListR":
            return it.new(type(rx)(rx.segs + ry.segs, it.g, it.shared))
    if op == "Mult" and isinstance(x, Ref) and type(it.deref(x)).__name__ == "ListR" and isinstance(y, IntL):
        r = it.deref(x)
        if len(r.segs) == 1 and r.segs[0][0] == "one":
            return it.new(type(r)([("run", y.a, r.segs[0][1])], it.g, it.shared))
    if x == NONE or y == NONE:
        it.exc("TypeError", "arithmetic on None", node)
        return BOT
    # boolean arrays
    if op in ("BitAnd", "BitOr", "BitXor"):
        if all(isinstance(v, C) and isinstance(v.v, bool) for v in (x, y)):
            return C({"BitAnd": x.v and y.v, "BitOr": x.v or y.v, "BitXor": x.v != y.v}[op])
        if isinstance(x, BArr) or isinstance(y, BArr):
            return BArr(("op", op, keyof(x), keyof(y)))
        return Op(("bin", op, keyof(x), keyof(y)))
    # sequences (batched arrays)
    sx = seqof(it, x)
    sy = seqof(it, y)
    if isinstance(sx, Seq) or isinstance(sy, Seq):
        return seq_binop(it, op, x, y, sx, sy, node)
    x1, y1 = to_num_leaf(it, x), to_num_leaf(it, y)
    if isinstance(x1, Num) and isinstance(y1, Num):
        if op in NUMOPS:
            return numop(it, op, x1, y1, node)
    return opaque("bin", (op, keyof(x), keyof(y)))


def seqof(it, l):
    if isinstance(l, Seq):
        return l
    if isinstance(l, Ref) and type(it.deref(l)).__name__ == "ArrR":
        return it.as_seq(l, None)
    return None


def rowdim(s):
    """Number of axes of the elements of a sequence, or None."""
    for l in leaves(s.body):
        if isinstance(l, Num) and l.shape is not None:
            return len(l.shape)
    return None


def seq_binop(it, op, x, y, sx, sy, node):
    def el(s, other):
        return s.body if isinstance(s, Seq) else other

    rx = rowdim(sx) if isinstance(sx, Seq) else None
    ry = rowdim(sy) if isinstance(sy, Seq) else None
    xn = to_num_leaf(it, x) if sx is None else None
    yn = to_num_leaf(it, y) if sy is None else None

    def nd(s, r, n):
        if s is not None:
            return r
        return len(n.shape) if isinstance(n, Num) and n.shape is not None else None

    dx, dy = nd(sx, rx, xn), nd(sy, ry, yn)
    n = None
    ok = False
    if isinstance(sx, Seq) and isinstance(sy, Seq):
        if sx.n == sy.n:
            n = sx.n
            if op == "MatMult":
                ok = dx == 2 and dy == 2
            elif op in ("Add", "Sub", "Mult", "Div"):
                ok = dx is not None and dx == dy
    else:
        s, r, o = (sx, dx, dy) if isinstance(sx, Seq) else (sy, dy, dx)
        n = s.n
        if op == "MatMult":
            ok = r == 2 and o == 2
            if isinstance(sx, Seq) and r == 2 and o == 1:
                ok = True
        elif op in ("Add", "Sub", "Mult", "Div"):
            ok = o is not None and r is not None and o <= r
        if op == "MatMult" and isinstance(sx, Seq) and r == 1 and o == 2:
            # (N, n) @ (n, q): every row times the matrix
            ok = True
    if ok:
        def f(a, b):
            return binop(it, op, a, b, node)

        body = it.ap(f, el(sx, x), el(sy, y))
        return alloc(it, n, body, (dtfloat if op == "Div" else (lambda d: d))(dtj(getattr(sx, "dt", None), getattr(sy, "dt", None))))
    return it.unk("batched array operation " + op, node)


def alloc(it, n, body, dt=None, row=None, kind="array"):
    """New array object holding a sequence."""
    from .interp import ArrR

    if row is None:
        for l in leaves(body):
            if isinstance(l, Num) and l.shape is not None:
                row = l.shape
                break
    body = it.mapleaf(lambda l: Num(l.p, l.shape if l.shape is not None else row, frozenset(), l.dt) if isinstance(l, Num) else l, body)
    return it.new(ArrR(n, body, row, dt, it.g, it.shared, kind))


# ---------------------------------------------------------------- comparisons

SWAP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
NEG = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}


def compare(it, op, x, y, node):
    if op == "Is" or op == "IsNot":
        r = is_same(it, x, y)
        return r if op == "Is" else b_not(r)
    if op in ("In", "NotIn"):
        r = contains(it, x, y, node)
        return r if op == "In" else b_not(r)
    if isinstance(x, Unk):
        return x
    if isinstance(y, Unk):
        return y
    if isinstance(x, IntL) and isinstance(y, IntL):
        d = x.a - y.a
        return {
            "Eq": lambda: atom_v(("eq0", d)),
            "NotEq": lambda: b_not(atom_v(("eq0", d))),
            "GtE": lambda: atom_v(("ge0", d)),
            "Lt": lambda: b_not(atom_v(("ge0", d))),
            "Gt": lambda: atom_v(("ge0", d - 1)),
            "LtE": lambda: atom_v(("ge0", -d)),
        }[op]()
    if isinstance(x, C) and isinstance(y, C) and type(x.v) == type(y.v) and isinstance(x.v, (str, bool, float)):
        try:
            return C({"Eq": x.v == y.v, "NotEq": x.v != y.v, "Lt": x.v < y.v, "LtE": x.v <= y.v, "Gt": x.v > y.v, "GtE": x.v >= y.v}[op])
        except TypeError:
            pass
    if op in ("Eq", "NotEq"):
        pos = op == "Eq"
        if isinstance(x, Tup) and isinstance(y, Tup):
            if len(x.xs) != len(y.xs):
                return C(not pos)
            r = TRUE
            for a, b in zip(x.xs, y.xs):
                r = b_and(r, it.truth(it.compare("Eq", a, b, node)))
            return r if pos else b_not(r)
        if x == NONE and y == NONE:
            return C(pos)
        if x == NONE or y == NONE:
            o = y if x == NONE else x
            if isinstance(o, Op):
                r = none_atom(o)
                return r if pos else b_not(r)
            return C(not pos)
        if isinstance(x, (C, StrL)) and isinstance(y, (C, StrL)) and not isinstance(x, StrL) and not isinstance(y, StrL) and type(x.v) != type(y.v) and isinstance(x.v, str) != isinstance(y.v, str):
            return C(not pos)
        if isinstance(x, Fun) and isinstance(y, Fun):
            return C((x == y) == pos)
        if x == y and isinstance(x, (Op, StrL)):
            return C(pos)
    for a, b, o in ((x, y, op), (y, x, SWAP.get(op, op))):
        if isinstance(a, C) and isinstance(a.v, str) and isinstance(b, IntL) and op in ("Eq", "NotEq"):
            return C(op == "NotEq")
    nx, ny = to_num_leaf(it, x), to_num_leaf(it, y)
    if isinstance(nx, Num) and isinstance(ny, Num):
        if is_scalar_const(nx) and is_scalar_const(ny):
            a, b = const_of(nx), const_of(ny)
            return C({"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op])
        if op in ("Eq", "NotEq") and nx.p == ny.p and not isinstance(x, Op):
            # x == x is "not NaN"
            t = ("not", ("isnan", nx.p))
            t = t if op == "Eq" else ("isnan", nx.p)
            return BArr(t) if nx.shape != () else all_atom(t)
        scal = nx.shape == () and ny.shape == ()
        if (nx.shape == () or ny.shape == ()) and (isinstance(x, Op) or isinstance(y, Op)):
            scal = True
        if scal:
            if op in ("NotEq", "GtE", "LtE"):
                return b_not(Node(("cmp", NEG[op], nx.p, ny.p), TRUE, FALSE))
            if op == "Gt":
                return Node(("cmp", "Lt", ny.p, nx.p), TRUE, FALSE)
            return Node(("cmp", op, nx.p, ny.p), TRUE, FALSE)
        return BArr(("op", op, nx.p, ny.p))
    kx, ky = keyof(x), keyof(y)
    if isinstance(x, (Seq, Num, Ref)) or isinstance(y, (Seq, Num, Ref)):
        return BArr(("op", op, kx, ky))
    if op in ("NotEq", "GtE", "LtE"):
        return b_not(Node(("cmp", NEG[op], kx, ky), TRUE, FALSE))
    if op == "Eq" and repr(kx) > repr(ky):
        kx, ky = ky, kx
    return Node(("cmp", op, kx, ky), TRUE, FALSE)


def none_atom(o):
    return Node(("none", o.t), TRUE, FALSE)


ANYOWNER = ("fresh", -1)
"""Owner of an arbitrary value left by earlier calls: it may be any object."""


def is_same(it, x, y):
    if isinstance(x, C) and isinstance(y, C):
        return C(type(x.v) == type(y.v) and (x.v is y.v or x.v == y.v))
    for a, b in ((x, y), (y, x)):
        if a == NONE:
            if isinstance(b, Op):
                return none_atom(b)
            if isinstance(b, Unk):
                return Node(("unk", b.why), TRUE, FALSE)
            return FALSE
        if isinstance(a, C) and isinstance(a.v, bool):
            if isinstance(b, Op):
                return Node(("is", a.v, b.t), TRUE, FALSE)
            if isinstance(b, BArr):
                return FALSE
            if isinstance(b, (Num, Ref, Seq, StrL, Tup, Fun, IntL)):
                return FALSE
    if isinstance(x, Fun) and isinstance(y, Fun):
        return C(x == y)
    if isinstance(x, Ref) and isinstance(y, Ref):
        return C(x == y)
    if type(x) is not type(y):
        if isinstance(x, Op) or isinstance(y, Op):
            return Node(("is", keyof(x), keyof(y)), TRUE, FALSE)
        return FALSE
    if isinstance(x, (Num, Seq)) and x.owner and y.owner and not (x.owner & y.owner) and ANYOWNER not in (x.owner | y.owner):
        return FALSE
    if isinstance(x, (Num, Seq)) and x.owner and x.owner == y.owner and x == y:
        return TRUE
    return Node(("is", keyof(x), keyof(y)), TRUE, FALSE)


def contains(it, x, y, node):
    items = it.static_items(y)
    if isinstance(y, C) and isinstance(y.v, str):
        if isinstance(x, C) and isinstance(x.v, str):
            return C(x.v in y.v)
        return Node(("in", keyof(x), y), TRUE, FALSE)
    if items is not None:
        r = FALSE
        for v in items:
            r = b_or(r, it.truth(it.compare("Eq", x, v, node)))
        return r
    if isinstance(y, Ref):
        rec = it.deref(y)
        if type(rec).__name__ == "DictR" and "**" not in rec.items:
            k = it.const_key(x)
            if rec.ext is None and k is not None:
                return dict_has(rec, k)
            if k is not None and k in rec.items:
                return TRUE
            return Node(("in", keyof(x), rec.ext), TRUE, FALSE)
    return Node(("in", keyof(x), keyof(y)), TRUE, FALSE)


# ---------------------------------------------------------------- strings


def strfr(l):
    if isinstance(l, StrL):
        return l.fr
    if isinstance(l, C) and isinstance(l.v, str):
        return (l.v,)
    return None


def mkstr(fr):
    s = StrL(fr)
    if not s.fr:
        return C("")
    if len(s.fr) == 1 and isinstance(s.fr[0], str):
        return C(s.fr[0])
    return s


def strcat(a, b):
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    fa = strfr(a) if strfr(a) is not None else (("val", keyof(a), "s"),)
    fb = strfr(b) if strfr(b) is not None else (("val", keyof(b), "s"),)
    return mkstr(tuple(fa) + tuple(fb))


def fmt(it, l, spec, conv=-1):
    sp = spec.v if isinstance(spec, C) else None
    if isinstance(l, Unk):
        return l
    if conv in (-1, 115) and sp in ("", "s", "d", None):
        f = strfr(l)
        if f is not None:
            return mkstr(f)
        if isinstance(l, IntL) and l.a.is_const():
            return C(str(l.a.c))
        if isinstance(l, C):
            return C(str(l.v))
        if sp in ("", "s", "d"):
            return mkstr((("val", keyof(l), "s"),))
    return mkstr((("val", keyof(l), repr(spec), conv),))


def percent(it, f, arg):
    args = list(arg.xs) if isinstance(arg, Tup) else [arg]
    out = []
    i = 0
    buf = ""
    while i < len(f):
        if f[i] == "%":
            if f[i + 1] == "%":
                buf += "%"
                i += 2
                continue
            k = f[i + 1]
            if k in "sd" and args:
                out.append(C(buf))
                buf = ""
                out.append(it.ap(lambda l: fmt(it, l, C("s")), args.pop(0)))
                i += 2
                continue
            return opaque("percent", (f, keyof(arg)))
        buf += f[i]
        i += 1
    out.append(C(buf))
    return it.concat(out)


# ---------------------------------------------------------------- slices and items


def slice_cases(sl, s):
    """A unit-step slice whose bounds need clipping or have an unknown sign: explicit case distinction."""
    n = s.n
    if any(isinstance(x, Node) for x in (sl.a, sl.b, sl.s)) or sl.s not in (NONE, IntL(1)):
        return None

    def bound(x, dflt):
        if x == NONE:
            return [(TRUE, dflt)]
        if not isinstance(x, IntL):
            return None
        pos = atom_v(("ge0", x.a))
        out = []
        for g, v in ((pos, x.a), (b_not(pos), x.a + n)):
            if g == FALSE:
                continue
            low, high = atom_v(("ge0", v)), atom_v(("ge0", n - v))
            for g2, w in ((b_not(low), Aff(0)), (b_and(low, b_not(high)), n), (b_and(low, high), v)):
                if b_and(g, g2) != FALSE:
                    out.append((b_and(g, g2), w))
        return out

    A, B = bound(sl.a, Aff(0)), bound(sl.b, n)
    if A is None or B is None:
        return None
    out = None
    for ga, a in A:
        for gb, b in B:
            g = b_and(ga, gb)
            ok = atom_v(("ge0", b - a))
            for g2, v in ((b_not(ok), Seq(Aff(0), s.body, s.kind, s.owner, s.dt)), (ok, Seq(b - a, subst(s.body, {IOTA: sym(IOTA) + a}), s.kind, s.owner, s.dt))):
                if b_and(g, g2) != FALSE:
                    out = v if out is None else ite(b_and(g, g2), v, out)
    return out


def slice_parts(sl, n):
    """(first index, end, step) with step in (1, -1); None when not resolved."""
    if any(isinstance(x, Node) for x in (sl.a, sl.b, sl.s)):
        return None

    def res(x, dflt):
        if x == NONE:
            return dflt
        if not isinstance(x, IntL):
            return None
        a = x.a
        h = hi(a)
        if h is not None and h < 0:
            a = a + n
        elif a.is_const() and a.c >= 0:
            pass
        else:
            l = lo(a)
            if l is None or l < 0:
                return None
        return a

    s = 1
    if sl.s != NONE:
        if not isinstance(sl.s, IntL) or not sl.s.a.is_const():
            return None
        s = sl.s.a.c
    if s == 1:
        a, b = res(sl.a, Aff(0)), res(sl.b, n)
        if a is None or b is None:
            return None
        # clip to the length
        for v in (a, b):
            d = lo(n - v)
            if d is None or d < 0:
                return None
        d = lo(a)
        if d is None or d < 0:
            return None
        d = lo(b)
        if d is None or d < 0:
            return None
        d = lo(b - a)
        if d is None or d < 0:
            return None
        return a, b, 1
    if s == -1:
        a, b = res(sl.a, n - 1), res(sl.b, Aff(-1))
        if a is None or b is None:
            return None
        return a, b, -1
    return None


def num_item(it, l, i, node):
    from .interp import is_full_slice

    if isinstance(i, C) and i.v is Ellipsis or is_full_slice(i):
        return l
    if isinstance(l.p, Poly) and l.shape is not None:
        xs = list(i.xs) if isinstance(i, Tup) else [i]
        # adding axes
        if len(l.shape) == 1 and len(xs) == 2:
            if is_full_slice(xs[0]) and xs[1] == NONE:
                return Num(l.p, (l.shape[0], Aff(1)), l.owner, l.dt)
            if xs[0] == NONE and is_full_slice(xs[1]):
                return Num(P_T(l.p), (Aff(1), l.shape[0]), l.owner, l.dt)
        if len(l.shape) == 1 and len(xs) == 1 and xs[0] == NONE:
            return Num(P_T(l.p), (Aff(1), l.shape[0]), l.owner, l.dt)
        # dropping a unit axis
        if len(l.shape) == 2 and len(xs) == 2:
            if is_full_slice(xs[0]) and xs[1] == IntL(0) and aff(l.shape[1]) == Aff(1):
                return Num(l.p, (l.shape[0],), l.owner, l.dt)
            if xs[0] == IntL(0) and is_full_slice(xs[1]) and aff(l.shape[0]) == Aff(1):
                return Num(P_T(l.p), (l.shape[1],), l.owner, l.dt)
        if ones(l.shape) and len(xs) == len(l.shape) and all(x in (IntL(0), IntL(-1)) for x in xs):
            return Num(l.p, (), frozenset(), l.dt)
        if len(xs) == 1 and isinstance(xs[0], IntL) and xs[0].a in (Aff(0), Aff(-1)) and aff(l.shape[0]) == Aff(1) if l.shape else False:
            sh = tuple(l.shape[1:])
            return Num(P_T(l.p) if len(sh) == 1 and not ones(sh) else l.p, sh, l.owner if sh else frozenset(), l.dt)
        if l.shape == ():
            if isinstance(i, Tup) and not i.xs:
                return l
            return it.exc("IndexError", "indexing a scalar", node)
        if isnanp(l.p) and all(isinstance(x, IntL) for x in xs):
            return Num(NANP, tuple(l.shape[len(xs):]), frozenset(), l.dt)
        if l.p.is_zero() and all(isinstance(x, IntL) for x in xs):
            return Num(ZERO, tuple(l.shape[len(xs):]), l.owner, l.dt)
    sh = None
    if l.shape is not None:
        xs = list(i.xs) if isinstance(i, Tup) else [i]
        if all(isinstance(x, IntL) for x in xs) and len(xs) <= len(l.shape):
            sh = tuple(l.shape[len(xs):])
    k = keyof(i)
    if isinstance(i, IntL):
        k = i.a
    r = opaque_num("idx", (l.p, k), sh)
    return it.mapleaf(lambda x: Num(x.p, sh, l.owner if sh != () else frozenset(), l.dt), r)


# ---------------------------------------------------------------- attributes


def shape_tup(s):
    return Tup([IntL(aff(d)) for d in s])


def seq_shape(s):
    """Shape of an array-like sequence or None."""
    if s.n is None:
        return None
    row = None
    for l in leaves(s.body):
        if isinstance(l, Num):
            row = l.shape
            if row is not None:
                break
        elif isinstance(l, (C, IntL)):
            row = ()
        elif isinstance(l, Seq):
            r = seq_shape(l)
            row = r
    if row is None:
        return None
    return (s.n,) + tuple(row)


def dtype_of(it, l):
    if isinstance(l, Seq):
        if l.dt is not None:
            return l.dt
        for x in leaves(l.body):
            if isinstance(x, Num):
                return x.dt
        return None
    if isinstance(l, Num):
        return l.dt
    return None


def num_attr(it, l, name, node):
    if isinstance(l, Num):
        if name in ("T", "mT"):
            return transpose(it, l)
        if name == "shape":
            if l.shape is not None:
                return shape_tup(l.shape)
            return Op(("shape", l.p))
        if name == "ndim":
            if l.shape is not None:
                return IntL(len(l.shape))
            return Op(("ndim", l.p))
        if name == "size":
            if l.shape is not None and len(l.shape) == 0:
                return IntL(1)
            if l.shape is not None and len(l.shape) == 1:
                return IntL(aff(l.shape[0]))
            return Op(("size", l.p))
        if name == "dtype":
            return Op(("dtype", l.dt if l.dt is not None else l.p))
        if name == "real":
            return Num(P_let(Let("np", ("real", l.p), False, False, l.shape)), l.shape)
        if name == "flat":
            return Op(("flat", l.p))
        return Fun("nmeth", (name, l))
    # sequences
    if name == "shape":
        s = seq_shape(l)
        if s is not None:
            return shape_tup(s)
        return Op(("shape", keyof(l)))
    if name == "ndim":
        s = seq_shape(l)
        if s is not None:
            return IntL(len(s))
        return Op(("ndim", keyof(l)))
    if name == "dtype":
        d = dtype_of(it, l)
        return Op(("dtype", d if d is not None else keyof(l)))
    if name == "size":
        s = seq_shape(l)
        if s is not None and len(s) == 1:
            return IntL(s[0])
        return Op(("size", keyof(l)))
    if name == "T":
        s = seq_shape(l)
        if s is not None and len(s) == 1:
            return l
        return it.unk("transpose of a stack")
    if name == "mT":
        return swap_last(it, l)
    return Fun("nmeth", (name, l))


def arr_attr(it, ref, name, node):
    r = it.deref(ref)
    if r.kind == "list":
        return Fun("lmeth", (name, ref))
    s = it.as_seq(ref, node)
    if name in ("shape", "ndim", "dtype", "size"):
        if r.row is not None:
            full = (r.n,) + tuple(r.row)
            if name == "shape":
                return shape_tup(full)
            if name == "ndim":
                return IntL(len(full))
            if name == "dtype":
                return Op(("dtype", r.dt if r.dt is not None else keyof(s)))
        return num_attr(it, s, name, node)
    if name in ("T", "mT"):
        return num_attr(it, s, name, node)
    return Fun("nmeth", (name, ref))


def swap_last(it, s):
    def f(b):
        if isinstance(b, Num):
            t = transpose(it, b)
            return t
        return it.unk("transposed elements")

    body = it.ap(f, s.body)
    return Seq(s.n, body, "array", s.owner, s.dt)


# ---------------------------------------------------------------- external names

NPTYPES = {"ndarray", "float64", "float32", "float16", "int64", "int32", "int_", "float_", "double", "single", "floating", "integer", "number", "generic", "bool_", "complex128", "object_", "longdouble", "inexact"}


def ext_attr(it, mod, attr):
    if mod == "numpy" or mod.startswith("numpy."):
        sub = mod[6:]
        if mod == "numpy":
            if attr in ("nan", "NaN", "NAN"):
                return C(float("nan"))
            if attr in ("inf", "Inf", "infty"):
                return C(float("inf"))
            if attr == "newaxis":
                return NONE
            if attr == "pi":
                return C(math.pi)
            if attr == "e":
                return C(math.e)
            if attr in NPTYPES:
                return Fun("type", "np." + attr)
            if attr in ("random",):
                return Fun("ext", "numpy.random")
            if attr == "__version__":
                return Op(("ext", "numpy.__version__"))
        if sub == "random":
            return Fun("ext", "numpy.random." + attr)
        if mod == "numpy.linalg" and attr == "LinAlgError":
            return Fun("type", "LinAlgError")
        return Fun("np", (sub + "." if sub else "") + attr)
    if mod == "math":
        if attr in ("nan", "inf", "pi", "e", "tau"):
            return C(getattr(math, attr))
    if mod == "typing" or mod.startswith("typing") or mod == "collections.abc":
        if attr == "NamedTuple":
            return Fun("type", "NamedTuple")
        if attr == "TYPE_CHECKING":
            return FALSE
        return Fun("type", attr)
    if mod == "abc":
        return Fun("type", attr)
    if mod == "sys" and attr in ("platform",):
        return Op(("sys", attr))
    return Fun("ext", mod + "." + attr)


BUILTINS = {
    "len", "range", "zip", "enumerate", "reversed", "list", "tuple", "iter", "next", "isinstance", "issubclass", "hasattr", "getattr", "setattr", "callable", "float",
    "int", "bool", "str", "abs", "min", "max", "sum", "any", "all", "map", "filter", "sorted", "print", "type", "id", "dict", "set", "frozenset", "repr", "round", "slice",
    "super", "property", "staticmethod", "classmethod", "object", "open", "input", "vars", "locals", "globals", "dir", "hash", "pow", "divmod", "ord", "chr", "format", "complex", "eval", "exec", "__import__", "delattr", "bytes",
}
EXCEPTIONS = {"Exception", "BaseException", "ValueError", "TypeError", "RuntimeError", "KeyError", "IndexError", "AttributeError", "LookupError", "ArithmeticError", "ZeroDivisionError", "NotImplementedError", "StopIteration", "OSError", "FileNotFoundError", "NameError", "AssertionError", "UserWarning", "Warning", "DeprecationWarning", "RuntimeWarning", "FloatingPointError", "OverflowError", "ImportError", "ModuleNotFoundError"}


def builtin(n):
    if n in ("True", "False", "None"):
        return C({"True": True, "False": False, "None": None}[n])
    if n == "NotImplemented" or n == "Ellipsis":
        return C(Ellipsis)
    if n in ("float", "int", "bool", "str", "list", "tuple", "dict", "set", "object", "complex", "bytes", "type"):
        return Fun("bi", n)
    if n in EXCEPTIONS:
        return Fun("type", n)
    if n in BUILTINS:
        return Fun("bi", n)
    if n in ("__debug__",):
        return TRUE
    return None


# ---------------------------------------------------------------- calls


def call(it, f, args, kw, node):
    k = f.kind
    if k == "np":
        return np_call(it, f.data, args, kw, node)
    if k == "bi":
        return bi_call(it, f.data, args, kw, node)
    if k == "type":
        return type_call(it, f.data, args, kw, node)
    if k == "ext":
        return ext_call(it, f.data, args, kw, node)
    if k == "lmeth":
        return lmeth(it, f.data[0], f.data[1], args, kw, node)
    if k == "dmeth":
        return dmeth(it, f.data[0], f.data[1], args, kw, node)
    if k == "imeth":
        if f.data[0] == "__next__":
            return bi_call(it, "next", [f.data[1]], kw, node)
        return it.unk("iterator method " + f.data[0], node)
    if k == "nmeth":
        return nmeth(it, f.data[0], f.data[1], args, kw, node)
    if k == "bmeth":
        return bmeth(it, f.data[0], f.data[1], args, kw, node)
    if k == "smeth":
        return smeth(it, f.data[0], f.data[1], args, kw, node)
    if k == "tmeth":
        nm, l = f.data
        if nm == "_replace" and l.names:
            xs = list(l.xs)
            for a, v in kw.items():
                xs[l.names.index(a)] = v
            return Tup(xs, l.names)
        if nm == "_asdict" and l.names:
            from .interp import DictR
            return it.new(DictR({C(a): v for a, v in zip(l.names, l.xs)}, it.g))
        return opaque("tuple." + nm, tuple(keyofv(a) for a in [l] + list(args)))
    if k == "nt":
        vals = list(args) + [None] * (len(f.data) - len(args))
        for a, v in kw.items():
            vals[f.data.index(a)] = v
        return Tup(vals, f.data)
    if k == "dcfield":
        return it.call(f.data, [], {}, node)
    if k == "attrgetter":
        return it.attr(args[0], f.data, node)
    if k == "itemgetter":
        r = [it.getitem(args[0], i, node) for i in f.data]
        return r[0] if len(r) == 1 else Tup(r)
    if k == "methodcaller":
        return it.call(it.attr(args[0], f.data, node), [], {}, node)
    if k == "mod":
        it.exc("TypeError", "module is not callable", node)
        return BOT
    if k == "cast":
        return it.call(f.data, args, kw, node)
    return it.unk("call of %s %r" % (k, f.data), node)


def type_call(it, name, args, kw, node):
    short = name.split(".")[-1]
    if short in ("float64", "float_", "double"):
        return it.ap(lambda x: as_num(it, x), args[0]) if args else C(0.0)
    if short == "cast" and len(args) == 2:
        return args[1]
    if short in ("TypeVar", "NewType"):
        return Fun("type", short)
    if short == "NamedTuple" and len(args) == 2:
        items = it.static_items(args[1]) or []
        return Fun("nt", tuple(x.xs[0].v for x in items))
    if name in EXCEPTIONS or short == "LinAlgError":
        return Op(("exception", short))
    if short in ("float32", "float16", "single", "int64", "int32", "int_"):
        return it.ap(lambda x: cast_leaf(it, x, DT.get(short, short)), args[0]) if args else C(0.0)
    return opaque("type:" + name, tuple(keyofv(a) for a in args))


def ext_call(it, name, args, kw, node):
    mod, _, fn = name.rpartition(".")
    if name in ("functools.partial",):
        return Fun("partial", (args[0], tuple(args[1:]), tuple(sorted(kw.items())))) if not isinstance(args[0], Node) else it.unk("partial of a gated callable", node)
    if name == "functools.reduce":
        acc = args[2] if len(args) > 2 else None
        items = it.static_items(args[1]) if not isinstance(args[1], Node) else None
        if items is not None:
            for x in items:
                acc = x if acc is None else it.call(args[0], [acc, x], {}, node)
            return acc
        return it.unk("reduce over a dynamic sequence", node)
    if name in ("copy.copy", "copy.deepcopy"):
        return it.ap(lambda l: copyleaf(it, l, name.endswith("deepcopy"), node), args[0])
    if name == "collections.deque" and set(kw) <= {"iterable", "maxlen"} and len(args) <= 2:
        from .interp import ListR

        m = args[1] if len(args) > 1 else kw.get("maxlen", NONE)
        src = args[0] if args else kw.get("iterable")
        ref = it.new(ListR((), it.g, it.shared, "list" if m == NONE else "bounded"))
        if src is not None and not (isinstance(src, Tup) and not src.xs):
            it.list_extend(ref, src, node)
        return ref
    if name == "collections.namedtuple":
        fields = args[1]
        if isinstance(fields, C):
            return Fun("nt", tuple(fields.v.replace(",", " ").split()))
        items = it.static_items(fields)
        return Fun("nt", tuple(x.v for x in items))
    if name == "dataclasses.dataclass":
        return args[0] if args else Fun("ext", "dataclasses.dataclass")
    if name == "dataclasses.field":
        f = kw.get("default_factory")
        if f is not None:
            return Fun("dcfield", f)
        return kw.get("default", NONE)
    if mod == "itertools":
        return itertools_call(it, fn, args, kw, node)
    if mod == "operator":
        ops = {"matmul": "MatMult", "add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div"}
        if fn in ops:
            return it.binop(ops[fn], args[0], args[1], node)
        if fn == "itemgetter":
            return Fun("itemgetter", tuple(args))
        if fn == "attrgetter" and isinstance(args[0], C):
            return Fun("attrgetter", args[0].v)
        if fn == "getitem":
            return it.getitem(args[0], args[1], node)
        if fn == "neg":
            return it.ap(lambda l: neg(it, l), args[0])
        if fn == "not_":
            return b_not(it.truth(args[0]))
        if fn == "is_" or fn == "is_not":
            return it.compare("Is" if fn == "is_" else "IsNot", args[0], args[1], node)
    if mod == "math":
        if fn == "isnan":
            return it.ap(lambda l: all_atom(("isnan", l.p)) if isinstance(l, Num) else opaque("isnan", (keyof(l),)), it.ap(lambda l: as_num(it, l), args[0]))
        return opaque_num("math." + fn, tuple(keyofv(a) for a in args), ())
    if mod == "contextlib" and fn in ("nullcontext", "suppress"):
        return Op(("ctx", fn))
    root = name.split(".")[0]
    if root in ("typing", "abc", "enum", "numbers", "types"):
        return Fun("type", fn)
    if name.startswith("numpy.random") or root in ("random", "secrets", "uuid"):
        it.ev("rng", name, node)
    elif root in ("time", "datetime"):
        it.ev("clock", name, node)
    elif root == "warnings":
        it.ev("warn", name, node)
    elif root in ("os", "sys", "io", "pathlib", "shutil", "subprocess", "logging", "tempfile", "socket", "threading", "json", "pickle", "atexit", "signal", "gc", "multiprocessing"):
        it.ev("io", name, node)
    else:
        it.ev("extcall", name, node)
    if root in ("scipy",) and fn in ("solve", "inv", "pinv"):
        return np_call(it, "linalg." + fn, args[:2], {}, node)
    return opaque("ext:" + name, tuple(keyofv(a) for a in args) + tuple((k, keyofv(v)) for k, v in sorted(kw.items())))


def copyleaf(it, l, deep, node):
    if isinstance(l, Num):
        return it.fresh(l.p, l.shape, l.dt)
    if isinstance(l, (Seq, Ref)):
        from .interp import ArrR, ListR, DictR, InstR
        if isinstance(l, Ref):
            r = it.deref(l)
            if isinstance(r, ListR):
                return it.new(ListR(r.segs, it.g, it.shared))
            if isinstance(r, DictR):
                return it.new(DictR(dict(r.items), it.g, it.shared, r.ext))
            if isinstance(r, InstR):
                fields = dict(r.fields)
                ref = it.new(InstR(r.cls, fields, it.g, r.name))
                if deep:
                    rr = it.deref(ref)
                    for k, v in list(fields.items()):
                        rr = rr.with_(k, it.ap(lambda x: copyleaf(it, x, True, node) if isinstance(x, (Num, Seq, Ref)) else x, v))
                    it.heap[ref.id] = rr
                return ref
        s = it.as_seq(l, node)
        if isinstance(s, Seq):
            return alloc(it, s.n, s.body, s.dt, kind=s.kind)
    return l


def zip_len(ns):
    """Minimum of affine lengths (None: all endless; False: not comparable)."""
    fin = [n for n in ns if n is not None]
    if not fin:
        return None
    for c in fin:
        if all(d == Aff(0) or (lo(d) is not None and lo(d) >= 0) for d in (n - c for n in fin)):
            return c
    # no smallest one among them: what they have in common, and the least of the rests
    common = {}
    for s, k in fin[0].t:
        if all(n.coef(s) == k for n in fin):
            common[s] = k
    base = Aff(0, common)
    rest = [n - base for n in fin]
    c = min(r.c for r in rest)
    if all(lo(r - c) is not None and lo(r - c) >= 0 for r in rest):
        s = "min(%s)" % ",".join(sorted({repr(r - c) for r in rest}))
        lows = [lo(r - c) for r in rest]
        set_range(s, Aff(min(lows)), None)
        MINS[s] = [r - c for r in rest]
        return base + c + sym(s)
    return False


MINS = {}
"""Symbols standing for the least of several lengths."""


INF = "inf-length"


def itertools_call(it, fn, args, kw, node):
    if fn in ("repeat",) and len(args) + len(kw) == 1:
        return Seq(None, args[0], "list")
    if fn == "repeat":
        n = args[1] if len(args) > 1 else kw.get("times")
        return it.ap(lambda l: Seq(l.a, args[0], "list") if isinstance(l, IntL) else it.unk("repeat"), n)
    if fn == "count":
        start = args[0] if args else IntL(0)
        step = args[1] if len(args) > 1 else IntL(1)
        return it.ap(lambda a, s: Seq(None, IntL(a.a + sym(IOTA).scale(s.a.c)), "list") if isinstance(a, IntL) and isinstance(s, IntL) and s.a.is_const() else it.unk("count"), start, step)
    if fn in ("chain",) or fn == "chain.from_iterable":
        from .interp import ListR
        out = it.new(ListR((), it.g))
        for a in (args if fn == "chain" else it.static_items(args[0]) or []):
            it.list_extend(out, a, node)
        return out
    if fn == "islice":
        if len(args) == 2:
            return it.getitem(it.ap(lambda l: listof(it, l, node), args[0]), SliceL(NONE, args[1], NONE), node)
        return it.getitem(it.ap(lambda l: listof(it, l, node), args[0]), SliceL(args[1], args[2], args[3] if len(args) > 3 else NONE), node)
    if fn == "starmap":
        items = it.static_items(args[1]) if not isinstance(args[1], Node) else None
        if items is not None:
            from .interp import ListR
            return it.new(ListR([("one", it.call(args[0], it.static_items(x), {}, node)) for x in items], it.g))
    if fn == "pairwise":
        def f(l):
            s = it.as_seq(l, node)
            if isinstance(s, Seq) and s.n is not None:
                return Seq(s.n - 1, Tup([s.body, subst(s.body, {IOTA: sym(IOTA) + 1})]), "list")
            return it.unk("pairwise")
        return it.ap(f, args[0])
    if fn == "accumulate":
        # accumulate(iterable, func, initial=...) as a loop
        from .interp import ListR
        out = it.new(ListR((), it.g))
        fnv = args[1] if len(args) > 1 else kw.get("func")
        init = kw.get("initial")
        if init is None or fnv is None:
            return it.unk("accumulate without initial", node)
        from .interp import EnvR
        eid = it.new(EnvR({"acc": init}, None, it.g)).id
        it.list_append(out, init, node)
        cell = {}

        def bind(v):
            cell["v"] = v

        def body():
            acc = it.heap[eid].vars["acc"]
            nv = it.call(fnv, [acc, cell["v"]], {}, node)
            it.env_set(eid, "acc", nv)
            it.list_append(out, nv, node)

        it.iterate(args[0], bind, [], node, bodyfn=body)
        return out
    return it.unk("itertools." + fn, node)


def listof(it, l, node):
    if isinstance(l, Unk):
        return l
    s = it.as_seq(l, node)
    if isinstance(s, Seq):
        return Seq(s.n, s.body, "list", s.owner, s.dt)
    return s if s is not None else it.unk("not a sequence: %r" % (l,), node)


def seq_len(it, l, node):
    if isinstance(l, Unk):
        return l
    if isinstance(l, Tup):
        return IntL(len(l.xs))
    if isinstance(l, C) and isinstance(l.v, str):
        return IntL(len(l.v))
    if isinstance(l, Ref):
        r = it.deref(l)
        t = type(r).__name__
        if t == "ArrR":
            return IntL(r.n)
        if t == "ListR":
            n = it.list_len(r)
            return IntL(n) if n is not None else it.unk("length of a list with unknown parts", node)
        if t == "DictR" and r.ext is None and "**" not in r.items:
            return IntL(len(r.items))
        if t == "InstR":
            return it.call(it.attr(l, "__len__", node), [], {}, node)
        return it.unk("len of " + t, node)
    if isinstance(l, Seq):
        if l.n is None:
            it.exc("TypeError", "len of an iterator", node)
            return BOT
        return IntL(l.n)
    if isinstance(l, Num):
        if l.shape is not None and len(l.shape):
            return IntL(aff(l.shape[0]))
        if l.shape == ():
            return it.exc("TypeError", "len of a scalar", node)
        return Op(("len", l.p))
    if l == NONE:
        return it.exc("TypeError", "len of None", node)
    return Op(("len", keyof(l)))


def range_seq(it, a, b, s):
    if not all(isinstance(x, IntL) for x in (a, b, s)) or not s.a.is_const() or abs(s.a.c) != 1:
        if all(isinstance(x, Unk) is False for x in (a, b, s)) and all(isinstance(x, IntL) and x.a.is_const() for x in (a, b, s)) and s.a.c != 0:
            xs = list(range(a.a.c, b.a.c, s.a.c))
            return Tup([IntL(x) for x in xs])
        return it.unk("range(%r, %r, %r)" % (a, b, s))
    k = s.a.c
    n = (b.a - a.a).scale(k)
    body = IntL(a.a + sym(IOTA).scale(k))
    l, h = lo(n), hi(n)
    if l is not None and l >= 0:
        return Seq(n, body, "list")
    if h is not None and h <= 0:
        return Seq(Aff(0), BOT, "list")
    return ite(atom_v(("ge0", n)), Seq(n, body, "list"), Seq(Aff(0), BOT, "list"))


def zip_seqs(it, segs, node):
    for s in segs:
        if isinstance(s, Unk):
            return s
        if not isinstance(s, Seq):
            return it.unk("zip over %r" % (s,), node)
    if not segs:
        return Seq(Aff(0), BOT, "list")
    n = zip_len([s.n for s in segs])
    if n is False:
        return it.unk("zip of lengths %s" % [s.n for s in segs], node)
    return Seq(n, Tup([s.body for s in segs]), "list")


def consume(it, l):
    """An iterator object passed on to a consumer is exhausted by it."""
    from .interp import IterR

    if isinstance(l, Ref):
        r = it.deref(l)
        if isinstance(r, IterR):
            it.heap[l.id] = IterR(r.seq, Op(("consumed",)), r.birth)


def bi_call(it, n, args, kw, node):
    from .interp import ListR, DictR, IterR, InstR, GenR, leaf_gates

    if n == "noop":
        return NONE
    if n == "len":
        return it.ap(lambda l: seq_len(it, l, node), args[0])
    if n == "range":
        a = [IntL(0), args[0], IntL(1)] if len(args) == 1 else (list(args) + [IntL(1)])[:3]
        return it.ap(lambda x, y, z: range_seq(it, x, y, z), *a)
    if n == "zip":
        segs = [it.ap(lambda l: l if isinstance(l, Unk) else (it.as_seq(l, node) or it.unk("not iterable: %r" % (l,), node)), a) for a in args]
        if "strict" in kw and kw["strict"] != FALSE:
            it.ev("zipstrict", None, node)
            for s in segs:
                pass
        r = it.ap(lambda *ls: zip_seqs(it, ls, node), *segs)
        if kw.get("strict") == TRUE:
            ls = [l for s in segs for l in leaves(s) if isinstance(l, Seq)]
            ns = {l.n for l in ls if l.n is not None}
            if len(ns) > 1:
                it.pending.append((b_and(it.g, Node(("shapeval", "zip strict"), TRUE, FALSE)), "ValueError", node, "zip strict lengths", True, tuple(it.loops)))
        return r
    if n == "enumerate":
        start = args[1] if len(args) > 1 else kw.get("start", IntL(0))

        def f(l, s):
            q = it.as_seq(l, node)
            if isinstance(q, Seq) and isinstance(s, IntL):
                return Seq(q.n, Tup([IntL(sym(IOTA) + s.a), q.body]), "list")
            return q if isinstance(q, Unk) else it.unk("enumerate over %r" % (l,), node)

        return it.ap(f, args[0], start)
    if n == "reversed":
        def f(l):
            q = it.as_seq(l, node)
            if isinstance(q, Seq) and q.n is not None:
                return Seq(q.n, subst(q.body, {IOTA: q.n - 1 - sym(IOTA)}), "list", q.owner, q.dt)
            return q if isinstance(q, Unk) else it.unk("reversed %r" % (l,), node)

        return it.ap(f, args[0])
    if n in ("list", "tuple"):
        if not args:
            return it.new(ListR((), it.g, it.shared)) if n == "list" else Tup(())

        def f(l):
            if isinstance(l, Unk):
                return l
            if n == "tuple" and isinstance(l, Tup):
                return l
            items = it.static_items(l)
            if items is not None:
                return it.new(ListR([("one", x) for x in items], it.g, it.shared)) if n == "list" else Tup(items)
            if isinstance(l, Ref) and isinstance(it.deref(l), ListR):
                return it.new(ListR(it.deref(l).segs, it.g, it.shared))
            q = it.as_seq(l, node)
            if isinstance(q, Seq) and q.n is not None:
                return it.new(ListR([("run", q.n, q.body)], it.g, it.shared))
            if isinstance(q, Op):
                return Op(("list", q.t))
            return q if isinstance(q, Unk) else it.unk("list(%r)" % (l,), node)

        return it.ap(f, args[0])
    if n == "iter":
        def f(l):
            if isinstance(l, Ref) and isinstance(it.deref(l), (IterR, GenR)):
                return l
            q = it.as_seq(l, node)
            if isinstance(q, Seq):
                return it.new(IterR(q, IntL(0), it.g))
            return q if q is not None else it.unk("iter(%r)" % (l,), node)

        return it.ap(f, args[0])
    if n == "next":
        def f(l):
            if isinstance(l, Ref) and isinstance(it.deref(l), GenR):
                s = it.as_seq(l, node)
                it.heap[l.id] = IterR(s, IntL(0), it.deref(l).birth)
            if isinstance(l, Ref) and isinstance(it.deref(l), IterR):
                r = it.deref(l)
                if not isinstance(r.pos, IntL) or not isinstance(r.seq, Seq):
                    return it.unk("next() on an iterator at an unknown position", node)
                v = subst(r.seq.body, {IOTA: r.pos.a})
                # exhausted?
                if r.seq.n is not None:
                    left = b_not(atom_v(("ge0", r.pos.a - r.seq.n)))
                    if left != TRUE:
                        if len(args) > 1:
                            v = ite(left, v, args[1])
                        else:
                            sv = it.g
                            it.g = b_and(it.g, b_not(left))
                            if it.g != FALSE:
                                it.exc("StopIteration", "next", node)
                            it.g = b_and(sv, left)
                it.heap[l.id] = IterR(r.seq, ite(it.rel(r.birth), IntL(r.pos.a + 1), r.pos), r.birth)
                return v
            if isinstance(l, Ref) and isinstance(it.deref(l), ListR) and isinstance(node, ast.Call) and node.args and isinstance(node.args[0], ast.GeneratorExp):
                # next(generator expression, default)
                s = it.deref(l)
                if s.segs and s.segs[0][0] == "one":
                    return s.segs[0][1]
                q = it.list_seq(s)
                if q is not None and lo(q.n) is not None and lo(q.n) >= 1:
                    return subst(q.body, {IOTA: Aff(0)})
                if len(args) > 1 and not s.segs:
                    return args[1]
            return it.unk("next(%r)" % (l,), node)

        return it.ap(f, args[0])
    if n == "isinstance":
        return it.ap(lambda l, t: isinst(it, l, t), args[0], args[1])
    if n == "hasattr":
        def f(l, a):
            if isinstance(l, Ref) and isinstance(it.deref(l), InstR) and isinstance(a, C):
                it.ev("attrread", (l, a.v), node)
                r = it.deref(l)
                v = r.fields.get(a.v)
                if v is not None and not isinstance(v, Bot):
                    return TRUE
                v, _ = it.class_lookup(r.cls, a.v)
                return C(v is not None)
            if isinstance(l, Num) and isinstance(a, C):
                if a.v in ("shape", "T", "ndim", "dtype"):
                    return TRUE if l.shape != () else Node(("isinstance", keyof(l), a.v), TRUE, FALSE)
                if a.v == "__len__":
                    return C(bool(l.shape)) if l.shape is not None else Node(("isinstance", keyof(l), a.v), TRUE, FALSE)
            if isinstance(l, Seq):
                return C(True)
            return Node(("hasattr", keyof(l), keyof(a)), TRUE, FALSE)

        return it.ap(f, args[0], args[1])
    if n == "getattr":
        a = args[1]
        if isinstance(a, C) and isinstance(a.v, str):
            if len(args) > 2:
                def f(l):
                    if isinstance(l, Ref) and isinstance(it.deref(l), InstR):
                        r = it.deref(l)
                        it.ev("attrread", (l, a.v), node)
                        v = r.fields.get(a.v)
                        if v is not None and not isinstance(v, Bot):
                            return v
                        v, _ = it.class_lookup(r.cls, a.v)
                        if v is None:
                            return args[2]
                    if isinstance(l, C):
                        return args[2]
                    if isinstance(l, Num) and l.shape == () and a.v in ("T",):
                        return l
                    return it.attr_leaf(l, a.v, node)
                return it.ap(f, args[0])
            return it.attr(args[0], a.v, node)
        return it.unk("getattr with computed name", node)
    if n == "setattr":
        if isinstance(args[1], C):
            it.setattr(args[0], args[1].v, args[2], node)
            return NONE
        it.ev("unkwrite", "setattr with computed name", node)
        return NONE
    if n == "callable":
        return it.ap(lambda l: C(isinstance(l, Fun)) if not isinstance(l, (Op, Unk)) else Node(("callable", keyof(l)), TRUE, FALSE), args[0])
    if n in ("float", "int", "bool", "str", "abs", "round", "complex"):
        if not args:
            return {"float": C(0.0), "int": IntL(0), "bool": FALSE, "str": C("")}.get(n, C(0.0))
        if n == "bool":
            return it.truth(args[0])
        if n == "str":
            return it.ap(lambda l: fmt(it, l, C("s")), args[0])

        def f(l):
            if isinstance(l, Unk):
                return l
            if n == "int" and isinstance(l, IntL):
                return l
            if n == "int" and isinstance(l, C) and isinstance(l.v, bool):
                return IntL(int(l.v))
            if n == "float" and isinstance(l, C) and isinstance(l.v, str):
                try:
                    return C(float(l.v))
                except ValueError:
                    return it.exc("ValueError", "float", node)
            if n == "float" and isinstance(l, (IntL, C)):
                x = as_num(it, l)
                if isinstance(x, Num):
                    return Num(x.p, (), frozenset(), "f8")
            if n == "float" and isinstance(l, Num):
                if l.shape is not None and not ones(l.shape):
                    it.ev("shape", "float() of shape %s" % shp(l.shape), node)
                    return Num(P_let(Let("np", ("float", l.p))), ())
                return Num(l.p, (), frozenset(), "f8")
            if n == "abs" and isinstance(l, Num):
                if l.p.is_zero():
                    return l
                return it.fresh(P_let(Let("np", ("abs", l.p), False, False, l.shape)), l.shape)
            return opaque(n, (keyof(l),) + tuple(keyofv(a) for a in args[1:]))

        return it.ap(f, args[0])
    if n in ("min", "max"):
        vs = list(args)
        if len(vs) == 1 and not isinstance(vs[0], Node):
            vs = it.static_items(vs[0]) or vs
        if len(vs) >= 2:
            acc = vs[0]
            for v in vs[1:]:
                c = it.truth(it.compare("LtE" if n == "min" else "GtE", acc, v, node))
                acc = ite(c, acc, v)
            return acc
        return opaque(n, tuple(keyofv(a) for a in args))
    if n == "sum":
        items = it.static_items(args[0]) if not isinstance(args[0], Node) else None
        if items is not None:
            acc = args[1] if len(args) > 1 else kw.get("start", IntL(0))
            for x in items:
                acc = it.binop("Add", acc, x, node)
            return acc
        return opaque_num("sum", tuple(keyofv(a) for a in args))
    if n in ("any", "all"):
        def f(l):
            if isinstance(l, BArr):
                return bmeth(it, n, l, [], {}, node)
            items = it.static_items(l)
            if items is not None:
                r = FALSE if n == "any" else TRUE
                for x in items:
                    r = b_or(r, it.truth(x)) if n == "any" else b_and(r, it.truth(x))
                return r
            q = it.as_seq(l, node) if isinstance(l, (Ref, Seq)) else None
            if isinstance(q, Seq):
                ls = [x for x in leaves(q.body) if not isinstance(x, Bot)]
                vs = set(it.truth(x) for x in ls) if all(isinstance(x, C) for x in ls) else None
                if vs and len(vs) == 1:
                    return vs.pop()
                return Node((n + "-of", keyof(q)), TRUE, FALSE)
            return Node((n + "-of", keyof(l)), TRUE, FALSE)
        return it.ap(f, args[0])
    if n == "map":
        # lazily applied; analysed as a comprehension
        out = it.new(ListR((), it.g))
        src = args[1] if len(args) == 2 else bi_call(it, "zip", args[1:], {}, node)
        cell = {}

        def bind(v):
            cell["v"] = v

        def body():
            a = [cell["v"]] if len(args) == 2 else [it.unpack(cell["v"], i, len(args) - 1, node) for i in range(len(args) - 1)]
            it.list_append(out, it.call(args[0], a, {}, node), node)

        it.iterate(src, bind, [], node, bodyfn=body)
        return out
    if n == "print":
        it.ev("io", "print", node)
        return NONE
    if n in ("open", "input", "exec", "eval", "__import__"):
        it.ev("io", n, node)
        return opaque("call:" + n, tuple(keyofv(a) for a in args))
    if n == "type":
        def f(l):
            if isinstance(l, Ref) and isinstance(it.deref(l), InstR):
                return Fun("class", it.deref(l).cls)
            if isinstance(l, Num) and l.shape:
                return Fun("type", "np.ndarray")
            return Op(("type", keyof(l)))
        return it.ap(f, args[0])
    if n == "dict":
        d = {C(k): v for k, v in kw.items()}
        if args:
            items = None
            if isinstance(args[0], Ref) and isinstance(it.deref(args[0]), DictR):
                r = it.deref(args[0])
                dd = dict(r.items)
                dd.update(d)
                return it.new(DictR(dd, it.g, it.shared, r.ext))
            items = it.static_items(args[0]) if not isinstance(args[0], Node) else None
            if items is None:
                return it.new(DictR({"**": it.unk("dict()", node)}, it.g))
            for x in items:
                k = it.const_key(it.unpack(x, 0, 2, node))
                if k is None:
                    return it.new(DictR({"**": it.unk("dict()", node)}, it.g))
                dd = it.unpack(x, 1, 2, node)
                d.setdefault(k, dd)
        return it.new(DictR(d, it.g, it.shared))
    if n == "slice":
        a = list(args)
        if len(a) == 1:
            return SliceL(NONE, a[0], NONE)
        return SliceL(a[0], a[1], a[2] if len(a) > 2 else NONE)
    if n == "sorted":
        if kw.get("key") is not None and isinstance(kw["key"], Fun) and kw["key"].kind == "func":
            kk = ("fun", "key")
        return opaque("sorted", tuple(keyofv(a) for a in args) + tuple((k, keyofv(v)) for k, v in sorted(kw.items())))
    if n in ("object",):
        return Op(("object", it.tok))
    if n in ("set", "frozenset"):
        return opaque("set", tuple(keyofv(a) for a in args))
    if n == "vars":
        return Op(("vars", keyofv(args[0]) if args else ""))
    if n == "str.join" and len(args) == 2:
        return smeth(it, "join", args[0], args[1:], kw, node)
    if n in ("object.__init__", "object.__setattr__"):
        if n.endswith("__setattr__") and isinstance(args[1], C):
            it.setattr(args[0], args[1].v, args[2], node)
        return NONE
    if n == "dict.fromkeys":
        items = it.static_items(args[0]) if not isinstance(args[0], Node) else None
        if items is not None:
            return it.new(DictR({it.const_key(x): (args[1] if len(args) > 1 else NONE) for x in items}, it.g))
    return opaque("call:" + n, tuple(keyofv(a) for a in args) + tuple((k, keyofv(v)) for k, v in sorted(kw.items())))


def isinst(it, l, t):
    ts = [t]
    if isinstance(t, Tup):
        ts = [x for x in t.xs]
    names = []
    for x in ts:
        if isinstance(x, Fun):
            names.append(x.data if isinstance(x.data, str) else ("class", x.data))
        else:
            names.append(repr(x))
    res = None
    for nm in names:
        r = isinst1(it, l, nm)
        if r is TRUE:
            return TRUE
        if r is not FALSE:
            res = r
    if res is not None:
        return Node(("isinstance", keyof(l), tuple(map(str, names))), TRUE, FALSE)
    return FALSE


def isinst1(it, l, nm):
    if isinstance(nm, tuple):
        if isinstance(l, Ref) and type(it.deref(l)).__name__ == "InstR":
            r = it.deref(l)
            return TRUE if it.classes[nm[1]] in it.classes[r.cls].mro(it.classes) else FALSE
        return FALSE if not isinstance(l, (Op, Unk)) else None
    short = nm.split(".")[-1]
    if isinstance(l, C):
        if l.v is None:
            return TRUE if short == "NoneType" else FALSE
        py = {"bool": (bool,), "int": (int,), "float": (float,), "str": (str,), "Number": (int, float), "Real": (int, float)}
        if short in py:
            return TRUE if isinstance(l.v, py[short]) else FALSE
        return FALSE
    if isinstance(l, IntL):
        return TRUE if short in ("int", "Integral", "Number", "Real") else FALSE
    if isinstance(l, (Seq,)) and l.kind == "array" or isinstance(l, Ref) and type(it.deref(l)).__name__ == "ArrR" and it.deref(l).kind == "array":
        if short in ("ndarray",):
            return TRUE
        if short in ("list", "tuple", "float", "int", "str", "dict", "bool", "Number", "Real"):
            return FALSE
        return None
    if isinstance(l, Num):
        if l.shape:
            if short == "ndarray":
                return TRUE if not any(x.op == "app" for x in l.p.letters()) or len(l.p.m) != 1 else None
            if short in ("list", "tuple", "float", "int", "str", "dict", "bool", "Number", "Real"):
                return FALSE if not any(x.op == "app" for x in l.p.letters()) else None
        return None
    if isinstance(l, Ref):
        t = type(it.deref(l)).__name__
        if t == "ListR":
            return TRUE if short in ("list", "Sequence", "Iterable") else FALSE
        if t == "DictR":
            return TRUE if short in ("dict", "Mapping") else FALSE
    if isinstance(l, Tup):
        return TRUE if short in ("tuple", "Sequence", "Iterable") else FALSE
    if isinstance(l, StrL):
        return TRUE if short == "str" else FALSE
    if isinstance(l, Fun):
        return TRUE if short == "Callable" else FALSE
    return None


# ---- methods of python containers


def lmeth(it, name, ref, args, kw, node):
    from .interp import ListR

    r = it.deref(ref)
    if name == "append":
        it.ev("listop", ("append", ref.id), node)
        it.list_append(ref, args[0], node)
        return NONE
    if name == "appendleft" or name == "insert" and args[0] == IntL(0):
        it.ev("listop", (name, ref.id), node)
        it.list_append(ref, args[-1], node, front=True)
        return NONE
    if name == "insert" and isinstance(args[0], IntL) and isinstance(r, ListR):
        n = it.list_len(r)
        it.ev("listop", (name, ref.id), node)
        if n is not None and args[0].a == n:
            it.list_append(ref, args[1], node)
            return NONE
    if name == "extend":
        it.ev("listop", ("extend", ref.id), node)
        it.list_extend(ref, args[0], node)
        return NONE
    if name == "copy":
        return it.new(ListR(r.segs, it.g, it.shared)) if isinstance(r, ListR) else it.unk("list copy", node)
    if name == "clear":
        it.ev("listop", ("clear", ref.id), node)
        if getattr(r, "shared", False):
            it.ev("sharedwrite", ref, node)
        g = it.rel(r.birth)
        it.heap[ref.id] = ListR(() if g == TRUE else (("alt-clear", g, r.segs),), r.birth, r.shared, "list")
        return NONE
    if name == "reverse" and isinstance(r, ListR):
        it.ev("listop", ("reverse", ref.id), node)
        segs = []
        for s in reversed(r.segs):
            if s[0] == "one":
                segs.append(s)
            elif s[0] == "run":
                segs.append(("run", s[1], subst(s[2], {IOTA: s[1] - 1 - sym(IOTA)})))
            else:
                segs.append(("opaque", "reversed"))
        if it.rel(r.birth) != TRUE:
            segs = [("opaque", "conditionally reversed")]
        it.heap[ref.id] = ListR(segs, r.birth, r.shared, r.kind)
        return NONE
    if name == "pop":
        it.ev("listop", ("pop", ref.id), node)
        if isinstance(r, ListR) and r.segs and r.segs[-1][0] == "one" and (not args or args[0] == IntL(-1)) and it.rel(r.birth) == TRUE:
            it.heap[ref.id] = ListR(r.segs[:-1], r.birth, r.shared, r.kind)
            return r.segs[-1][1]
        v = it.getitem_leaf(ref, args[0] if args else IntL(-1), node)
        it.heap[ref.id] = ListR((("opaque", "pop"),), r.birth, r.shared, "list")
        return v
    if name in ("sort", "remove", "insert", "__setitem__", "__delitem__"):
        it.ev("listop", (name, ref.id), node)
        if name == "__setitem__":
            it.setitem_leaf(ref, args[0], args[1], node, ref)
            return NONE
        it.heap[ref.id] = ListR((("opaque", name),), r.birth, r.shared, "list")
        return NONE
    if name == "__len__":
        return seq_len(it, ref, node)
    if name == "__getitem__":
        return it.getitem(ref, args[0], node)
    if name in ("index", "count"):
        return opaque("list." + name, (keyof(ref),) + tuple(keyofv(a) for a in args))
    return it.unk("list method " + name, node)


def dict_has(r, k):
    """When the dictionary has the key: entries made on some paths only are gated with "nothing" elsewhere."""
    def f(v):
        if isinstance(v, Node):
            return ite(Node(v.atom, TRUE, FALSE), f(v.hi), f(v.lo))
        return FALSE if v == ABSENT else TRUE

    return f(r.items[k]) if k in r.items else FALSE


ABSENT = Op(("absent",))
"""The value of a dictionary entry on the paths that have not made it."""


def dmeth(it, name, ref, args, kw, node):
    from .interp import DictR

    r = it.deref(ref)
    if name == "get":
        k = it.const_key(args[0]) if not isinstance(args[0], Node) else None
        d = args[1] if len(args) > 1 else NONE
        if k is not None and k in r.items:
            v = r.items[k]
            has = dict_has(r, k) if r.ext is None else TRUE
            return v if has == TRUE else ite(has, v, d)
        if r.ext is not None:
            return opaque("dget", (r.ext, keyofv(args[0]), keyofv(d)))
        if k is not None and "**" not in r.items:
            return d
        return it.unk("dict.get", node)
    if name in ("keys", "values", "items") and r.ext is None and "**" not in r.items:
        if name == "keys":
            return Tup(list(r.items))
        if name == "values":
            return Tup(list(r.items.values()))
        return Tup([Tup([k, v]) for k, v in r.items.items()])
    if name == "copy":
        return it.new(DictR(dict(r.items), it.g, it.shared, r.ext))
    if name in ("update", "setdefault", "pop", "clear", "popitem"):
        if r.shared:
            it.ev("sharedwrite", ref, node)
        it.ev("dictop", (name, ref.id), node)
        if name == "update":
            d = dict(r.items)
            for k, v in kw.items():
                d[C(k)] = ite(it.rel(r.birth), v, d.get(C(k), ABSENT if r.ext is None else BOT))
            if args and isinstance(args[0], Ref) and isinstance(it.deref(args[0]), DictR) and it.deref(args[0]).ext is None:
                for k, v in it.deref(args[0]).items.items():
                    d[k] = ite(it.rel(r.birth), v, d.get(k, ABSENT if r.ext is None else BOT))
            elif args:
                d = {"**": it.unk("dict.update", node)}
            it.heap[ref.id] = DictR(d, r.birth, r.shared, r.ext)
            return NONE
        k = it.const_key(args[0]) if args and not isinstance(args[0], Node) else None
        if name == "setdefault" and k is not None:
            has = dict_has(r, k)
            if has == TRUE or r.ext is not None and k in r.items:
                return r.items[k]
            if r.ext is None:
                new = args[1] if len(args) > 1 else NONE
                old = r.items.get(k, ABSENT)
                d = dict(r.items)
                d[k] = ite(has, old, ite(it.rel(r.birth), new, ABSENT))
                it.heap[ref.id] = DictR(d, r.birth, r.shared, r.ext)
                return ite(has, old, new)
        if name == "pop" and k is not None:
            d = dict(r.items)
            v = d.pop(k, None)
            gone = "popped" if r.ext is not None else None
            ext = ("without", r.ext, k) if r.ext is not None else None
            it.heap[ref.id] = DictR(d, r.birth, r.shared, ext)
            if v is not None:
                return v
            if r.ext is not None:
                return opaque("item", (r.ext, keyof(k)))
            return args[1] if len(args) > 1 else it.exc("KeyError", repr(k), node)
        if name == "clear":
            it.heap[ref.id] = DictR({}, r.birth, r.shared)
            return NONE
    return it.unk("dict method " + name, node)


def smeth(it, name, l, args, kw, node):
    if isinstance(l, C) and isinstance(l.v, str) and all(isinstance(a, (C, IntL)) for a in args) and not kw:
        a = [x.v if isinstance(x, C) else x.a.c if x.a.is_const() else None for x in args]
        if name in ("startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "find", "rfind", "count", "format", "isdigit", "split", "partition", "rpartition", "index", "title", "capitalize", "zfill"):
            try:
                r = getattr(l.v, name)(*a)
            except Exception as e:
                return it.exc(type(e).__name__, name, node)
            if isinstance(r, bool) or isinstance(r, str):
                return C(r)
            if isinstance(r, int):
                return IntL(r)
            if isinstance(r, tuple):
                return Tup([C(x) for x in r])
            if isinstance(r, list):
                from .interp import ListR
                return it.new(ListR([("one", C(x)) for x in r], it.g))
    if name == "format" and isinstance(l, C):
        import string

        try:
            parts = []
            auto = 0
            for lit, fld, spec, conv in string.Formatter().parse(l.v):
                parts.append(C(lit))
                if fld is None:
                    continue
                if fld == "":
                    v = args[auto]
                    auto += 1
                elif fld.isdigit():
                    v = args[int(fld)]
                elif fld in kw:
                    v = kw[fld]
                else:
                    return it.unk("format field", node)
                parts.append(it.ap(lambda x: fmt(it, x, C(spec or ""), -1 if conv is None else ord(conv)), v))
            return it.concat(parts)
        except (IndexError, ValueError):
            return it.unk("format", node)
    if name == "join":
        items = it.static_items(args[0]) if not isinstance(args[0], Node) else None
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(l)
                parts.append(x)
            return it.concat(parts)
        if isinstance(args[0], Ref) and type(it.deref(args[0])).__name__ == "ListR":
            segs = it.deref(args[0]).segs
            flat = []
            for s in segs:
                if s[0] == "one":
                    flat.append((TRUE, s[1]))
                elif s[0] == "alt" and all(q[0] == "one" for q in s[2]):
                    for q in s[2]:
                        flat.append((s[1], q[1]))
                else:
                    flat = None
                    break
            if flat is not None and flat and flat[0][0] == TRUE:
                acc = it.concat([flat[0][1]])
                for g, x in flat[1:]:
                    w = it.concat([acc, l, x])
                    acc = ite(g, w, acc)
                return acc
            if flat is not None and l == C(""):
                acc = C("")
                for g, x in flat:
                    acc = ite(g, it.concat([acc, x]), acc)
                return acc
    return opaque("str." + name, (keyof(l),) + tuple(keyofv(a) for a in args))


def bmeth(it, name, l, args, kw, node):
    t = l.t
    if name in ("all", "any"):
        ax = args[0] if args else kw.get("axis", NONE)
        if ax != NONE:
            return BArr(("op", name, t, keyofv(ax)))
        if name == "all":
            return all_atom(t)
        return b_not(all_atom(t[1] if t[0] == "not" else ("not", t)))
    if name == "item":
        return all_atom(t)
    if name in ("copy", "ravel", "flatten"):
        return l
    if name in ("sum", "mean", "min", "max"):
        if name == "min":
            return all_atom(t)
        if name == "max":
            return b_not(all_atom(t[1] if t[0] == "not" else ("not", t)))
        return opaque("b" + name, (t,))
    if name == "astype":
        return opaque_num("astype", (t,))
    return opaque("bool." + name, (t,) + tuple(keyofv(a) for a in args))


# ---- numpy arrays


NMETH_NP = {"dot", "transpose", "copy", "reshape", "ravel", "squeeze", "astype", "swapaxes", "all", "any", "sum", "mean", "trace", "diagonal", "max", "min", "clip", "round", "flatten", "conj", "conjugate", "repeat", "take", "argmax", "argmin", "std", "var", "prod", "cumsum"}


def nmeth(it, name, l, args, kw, node):
    if name == "flatten":
        r = np_call(it, "ravel", [l] + list(args), kw, node)
        return it.ap(lambda x: copyleaf(it, x, False, node) if isinstance(x, (Num, Seq, Ref)) else x, r)
    if name in ("item", "tolist"):
        s = to_num_leaf(it, l) if not isinstance(l, Ref) else None
        if isinstance(s, Num) and s.shape is not None and ones(s.shape):
            return Num(s.p, (), frozenset(), s.dt)
        if name == "tolist":
            q = it.as_seq(l, node)
            if isinstance(q, Seq) and q.n is not None:
                from .interp import ListR
                return it.new(ListR([("run", q.n, q.body)], it.g))
        return opaque_num("item", (keyof(l),) + tuple(keyofv(a) for a in args), ())
    if name == "fill":
        seq = seqof(it, l)
        if isinstance(l, Ref):
            it.arr_replace(l, args[0], node)
        else:
            it.setitem_leaf(l, SliceL(NONE, NONE, NONE), args[0], node, l)
        return NONE
    if name in ("sort", "resize", "partition", "put", "setflags", "itemset"):
        for t in getattr(l, "owner", ()):
            it.ev("mutate-token", t, node)
        if isinstance(l, Num):
            it.inplace(l, Num(P_let(Let("np", (name, l.p))), l.shape, l.owner), l, node)
        elif isinstance(l, Ref):
            it.arr_replace(l, Num(P_let(Let("np", (name,)))), node)
        return NONE
    if name == "__matmul__":
        return binop(it, "MatMult", l, args[0], node)
    if name == "__len__":
        return seq_len(it, l, node)
    if name == "__getitem__":
        return it.getitem(l, args[0], node)
    if name == "transpose":
        if not args and not kw:
            if isinstance(l, Num):
                return transpose(it, l)
            return num_attr(it, it.as_seq(l, node), "T", node)
        a = list(args)
        if len(a) == 1 and isinstance(a[0], Tup):
            a = list(a[0].xs)
        return np_call(it, "transpose", [l, Tup(a)], {}, node)
    if name == "reshape":
        a = list(args)
        if len(a) == 1 and isinstance(a[0], Tup):
            shp_ = a[0]
        else:
            shp_ = Tup(a) if len(a) != 1 else a[0]
        return np_call(it, "reshape", [l, shp_], {k: v for k, v in kw.items() if k != "order"} if kw.get("order") in (None, C("C")) else kw, node)
    return np_call(it, name, [l] + list(args), kw, node)


DT = {"float": "f8", "float64": "f8", "double": "f8", "float_": "f8", "np.float64": "f8", "np.double": "f8", "np.float_": "f8", "d": "f8", "f8": "f8", "<f8": "f8", "float32": "f4", "np.float32": "f4", "single": "f4", "float16": "f2", "int": "i8", "int64": "i8", "int32": "i4", "int_": "i8", "np.int64": "i8", "bool": "b1"}


def dtype_leaf(it, v):
    """Descriptor of a dtype argument."""
    if v is None or v == NONE:
        return None
    if isinstance(v, Node):
        ls = {repr(dtype_leaf(it, l)): dtype_leaf(it, l) for l in leaves(v)}
        return ls.popitem()[1] if len(ls) == 1 else ("gated",)
    if isinstance(v, Fun):
        d = v.data if isinstance(v.data, str) else str(v.data)
        return DT.get(d, DT.get(d.split(".")[-1], ("dtype", d)))
    if isinstance(v, C) and isinstance(v.v, str):
        return DT.get(v.v, ("dtype", v.v))
    if isinstance(v, Op) and v.t[0] == "dtype":
        return v.t[1]
    if isinstance(v, Op) and v.t[0] == "np" and v.t[1] == "result_type":
        return v.t
    if isinstance(v, Op):
        return ("dtype", v.t)
    return ("dtype", repr(v))


def cast_leaf(it, x, dt):
    """Value converted to a dtype."""
    if dt is None:
        return x
    if isinstance(x, (Unk, Op)):
        return x if dt in FLOATS or isinstance(x, Unk) else opaque_num("cast", (dt, keyof(x)))
    if isinstance(x, BArr):
        return opaque_num("astype", (x.t,))
    if isinstance(x, (C, IntL)):
        x = as_num(it, x)
    if isinstance(x, Num):
        if dt in FLOATS or dt == x.dt or dt == x.p:
            return Num(x.p, x.shape, x.owner, dt if dt in FLOATS else x.dt)
        if x.p.is_zero():
            return Num(ZERO, x.shape, x.owner, dt)
        return Num(P_let(Let("np", ("cast", dt, x.p), False, False, x.shape)), x.shape, x.owner, dt)
    if isinstance(x, (Seq, Ref)):
        s = it.as_seq(x, None)
        if isinstance(s, Seq) and s.n is not None:
            if dt in FLOATS or dt == s.dt:
                if isinstance(x, Seq):
                    return Seq(s.n, s.body, s.kind, s.owner, dt if dt in FLOATS else s.dt, s.ext)
                if s.dt == dt:
                    return x
                if s.dt is not None and s.dt in ("i8", "b1"):
                    return alloc(it, s.n, s.body, dt)
                return Seq(s.n, s.body, s.kind, s.owner, dt, s.ext)
            return Seq(s.n, it.ap(lambda b: cast_leaf(it, b, dt), s.body), "array", s.owner, dt)
    return x


def is_series(d):
    """Is this leading dimension the length of a time series (rather than a matrix dimension)?"""
    return any(s not in ("n", "m", "p", "q") for s in aff(d).syms())


def mkfilled(it, shape, val, dt, node):
    """New array with every element val (Num scalar poly)."""
    p = val
    if shape is None:
        return it.fresh(p if p.is_zero() or isnanp(p) else P_let(Let("np", ("full", p))), None, dt)
    if shape and is_series(shape[0]):
        row = tuple(shape[1:])
        q = p
        if not (p.is_zero() or isnanp(p) or ones(row)):
            q = P_let(Let("np", ("full", p), False, False, row))
        return alloc(it, aff(shape[0]), Num(q, row, frozenset(), dt), dt, row)
    q = p
    if not (p.is_zero() or isnanp(p) or ones(shape)):
        q = P_let(Let("np", ("full", p), False, False, tuple(shape)))
    r = it.fresh(q, tuple(shape), dt)
    if not shape:
        # a 0-d array, unlike a scalar, can be written
        r = Num(r.p, r.shape, frozenset([("fresh", it.tok)]), dt)
    return r


def fill_leaf(it, l, v, node):
    """What array value l holds after v is assigned to all of it (v broadcast to l's shape and type)."""
    if isinstance(v, Unk):
        return v
    if isinstance(v, (C, IntL)):
        v = as_num(it, v)
    if isinstance(l, Num):
        n = to_num_leaf(it, v)
        if not isinstance(n, Num) or n.shape is None or l.shape is None or len(n.shape) > len(l.shape):
            return Num(P_let(Let("np", ("setitem", l.p, "all", keyof(v)), False, False, l.shape)), l.shape, l.owner, l.dt)
        p = n.p
        if len(n.shape) == len(l.shape):
            if any(aff(a) != aff(b) and aff(a) != Aff(1) for a, b in zip(n.shape, l.shape)):
                it.ev("shape", "assigning shape %s to %s" % (shp(n.shape), shp(l.shape)), node)
            same = all(aff(a) == aff(b) for a, b in zip(n.shape, l.shape))
        else:
            same = False
        if not same and not p.is_zero() and not isnanp(p):
            p = P_let(Let("np", ("full", p), False, False, l.shape))
        if l.dt is not None and l.dt not in FLOATS and not p.is_zero() and n.dt != l.dt:
            p = P_let(Let("np", ("cast", l.dt, p), False, False, l.shape))
        return Num(p, l.shape, l.owner, l.dt)
    if isinstance(l, Seq):
        s = it.as_seq(v, node) if isinstance(v, (Seq, Ref)) else None
        if isinstance(s, Seq):
            return Seq(l.n, s.body, l.kind, l.owner, l.dt, l.ext)
        row = next((x for x in leaves(l.body) if isinstance(x, Num)), None)
        if row is not None:
            return Seq(l.n, fill_leaf(it, row, v, node), l.kind, l.owner, l.dt, l.ext)
        return Seq(l.n, Op(("setitem", l.body, "all", keyof(v))), l.kind, l.owner)
    return v


def shape_arg(it, v):
    """Tuple of Aff from a shape argument leaf, or None."""
    if isinstance(v, IntL):
        return (v.a,)
    xs = None
    if isinstance(v, Tup):
        xs = v.xs
    elif isinstance(v, Ref):
        xs = it.static_items(v)
    if xs is not None and all(isinstance(x, IntL) for x in xs):
        return tuple(x.a for x in xs)
    return None


PURE_NP_INPLACE = {"copyto", "fill_diagonal", "put", "place", "putmask", "add.at"}
GLOBAL_NP = {"seterr", "seterrcall", "set_printoptions", "setbufsize", "errstate", "set_string_function", "seterrobj", "save", "savez", "savetxt", "load", "loadtxt", "fromfile", "genfromtxt", "memmap"}


def np_call(it, name, args, kw, node):
    # gated callables never get here; arguments may be gated
    if name in GLOBAL_NP or name.startswith("random."):
        it.ev("io" if name != "errstate" else "errstate", "numpy." + name, node)
        return opaque("np." + name, tuple(keyofv(a) for a in args))
    if name == "LinAlgError" or name == "linalg.LinAlgError":
        return Op(("exception", "LinAlgError"))
    out = kw.pop("out", None) if "out" in kw and not isinstance(kw.get("out"), type(None)) else None
    if out == NONE:
        out = None
    where_ = kw.get("where")
    if where_ is not None and name not in ("where",):
        r = opaque_num("np." + name, tuple(keyofv(a) for a in args) + tuple((k, keyofv(v)) for k, v in sorted(kw.items())))
    else:
        names = sorted(kw)
        nargs = len(args)
        # container arguments (lists) are handled by identity, so lift over leaves
        for i, a in enumerate(args):
            if a is None:
                args[i] = NONE

        def f(*ls):
            return np_leaf(it, name, list(ls[:nargs]), dict(zip(names, ls[nargs:])), node)

        r = it.ap(f, *(list(args) + [kw[k] for k in names]))
    if out is not None:
        for l in leaves(out):
            if isinstance(l, Ref) and type(it.deref(l)).__name__ == "ArrR":
                it.arr_replace(l, r, node)
            elif isinstance(l, (Num, Seq)):
                it.inplace(l, r, out, node)

        def keep(o, n):
            if isinstance(o, Num) and isinstance(n, Num):
                return Num(n.p, o.shape, o.owner, o.dt)
            return o if isinstance(o, Ref) else n

        return it.ap(keep, out, r)
    return r


def seq_args(it, ls):
    return [seqof(it, l) for l in ls]


BIN = {"add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div", "matmul": "MatMult", "power": "Pow"}
LOG = {"logical_and": "And", "logical_or": "Or"}
CMP = {"equal": "Eq", "not_equal": "NotEq", "less": "Lt", "less_equal": "LtE", "greater": "Gt", "greater_equal": "GtE"}


def as_matrix(it, l):
    """Numeric leaf for matrix operations (lists of scalars become opaque)."""
    n = to_num_leaf(it, l)
    if isinstance(n, Num):
        return n
    return None


ROWWISE = {"sqrt", "exp", "log", "abs", "absolute", "fabs", "sin", "cos", "tan", "arctan", "round", "around", "rint", "floor", "ceil", "trunc", "sign", "clip", "maximum", "minimum", "fmax", "fmin", "nan_to_num", "tanh", "fix", "log1p", "expm1", "cbrt", "reciprocal", "where", "mod", "heaviside", "arctan2", "hypot"}


def row_mask(t):
    """A mask with one entry per row of a sequence."""
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "not":
        return row_mask(t[1])
    if isinstance(t, tuple) and len(t) == 4 and t[0] == "op" and t[1] in ("any", "all") and repr(t[3]) in ("1", "-1", "IntL(1)"):
        return True
    return row_of_mask(t) is not None


def row_of_mask(t):
    """The mask of one element (at IOTA) of a mask computed element by element from series; None if it is not."""
    if not isinstance(t, tuple):
        return None
    if t[0] == "not":
        r = row_of_mask(t[1])
        return None if r is None else ("not", r)
    if t[0] == "isnan" and isinstance(t[1], Seq):
        b = t[1].body
        return ("isnan", b.p) if isinstance(b, Num) else None
    if t[0] == "op" and t[1] in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE", "isfinite", "isinf", "And", "Or", "BitAnd", "BitOr"):
        out, some = [], False
        for x in t[2:]:
            if isinstance(x, Seq):
                if isinstance(x.body, Node):
                    return None
                x, some = keyof(x.body), True
            elif isinstance(x, BArr) or isinstance(x, tuple) and x and x[0] in ("op", "not", "isnan"):
                r = row_of_mask(x.t if isinstance(x, BArr) else x)
                if r is None:
                    return None
                x, some = r, True
            elif isinstance(x, Poly) and any(l.shape not in ((), None) for l in x.letters()):
                # a vector on the other side: lines up with the elements
                pass
            out.append(x)
        return ("op", t[1]) + tuple(out) if some else None
    return None


def mask_len(t):
    """Length of the series a mask is computed from."""
    if isinstance(t, Seq):
        return t.n
    if isinstance(t, BArr):
        return mask_len(t.t)
    if isinstance(t, tuple):
        for x in t:
            n = mask_len(x)
            if n is not None:
                return n
    return None


def over_series(it, name, base, a, kw, node):
    """numpy functions applied to whole series: element by element, reductions over the steps, running totals."""
    seqs = [seqof(it, x) for x in a]
    first = next((s for s in seqs if s is not None), None)
    if first is None or first.n is None:
        return None
    if base in ROWWISE:
        if any(k not in ("copy", "nan", "posinf", "neginf", "decimals", "a_min", "a_max", "min", "max") for k in kw):
            return None
        dim = rowdim(first)
        rows = []
        for x, s in zip(a, seqs):
            if s is not None:
                if s.n != first.n or rowdim(s) != dim:
                    return None
                rows.append(s.body)
            elif isinstance(x, BArr):
                r = row_of_mask(x.t)
                if r is None or mask_len(x.t) != first.n:
                    return None
                rows.append(BArr(r))
            else:
                v = to_num_leaf(it, x)
                if not (isinstance(v, Num) and v.shape is not None and len(v.shape) <= min(dim or 0, 1)) and x != NONE:
                    return None
                rows.append(x)
        return alloc(it, first.n, np_call(it, name, rows, dict(kw), node))
    s = first
    if len(seqs) != 1 + (len(a) - 1) or any(q is not None for q in seqs[1:]):
        return None
    key = Seq(s.n, s.body, "list")
    sh = seq_shape(s)
    row = tuple(sh[1:]) if sh is not None else None
    rest = list(a[1:])
    if base == "roll":
        k, ax = rest[0] if rest else kw.get("shift"), kw.get("axis", rest[1] if len(rest) > 1 else NONE)
        if isinstance(k, IntL) and k.a.is_const() and abs(k.a.c) == 1 and (ax == IntL(0) or ax == NONE and row == ()):
            I, c = sym(IOTA), k.a.c
            if c == 1:
                body = ite(atom_v(("eq0", I)), subst(s.body, {IOTA: s.n - 1}), subst(s.body, {IOTA: I - 1}))
            else:
                body = ite(atom_v(("eq0", I - s.n + 1)), subst(s.body, {IOTA: Aff(0)}), subst(s.body, {IOTA: I + 1}))
            return alloc(it, s.n, body)
        return None
    if set(kw) - {"axis"}:
        return None
    if name in ("cumsum", "cumprod", "maximum.accumulate", "minimum.accumulate", "add.accumulate"):
        ax = kw.get("axis", rest[0] if rest else (NONE if name.startswith("cum") else IntL(0)))
        if ax == IntL(0) or row == () and ax == NONE:
            upto = Seq(sym(IOTA) + 1, s.body, "list")
            return alloc(it, s.n, Num(P_let(Let("np", ("np." + name, upto), False, False, row)), row))
        return None
    if name == "sort":
        ax = kw.get("axis", rest[0] if rest else IntL(-1))
        if ax == IntL(0) or row == ():
            return alloc(it, s.n, Num(P_let(Let("np", ("np.sort", key, sym(IOTA)), False, False, row)), row))
        return None
    if base in FREE_SCALAR and base not in ("trace", "det", "norm", "cond", "matrix_rank", "slogdet"):
        ax = kw.get("axis", rest[0] if rest else NONE)
        if ax == IntL(0) and len(rest) <= 1 and row:
            return it.mapleaf(lambda x: it.fresh(x.p, x.shape, None), opaque_num("np." + name, (key, ("axis", 0)), row))
    return None


def np_leaf(it, name, a, kw, node):
    for x in a:
        if isinstance(x, Unk):
            return x
    base = name.split(".")[-1]
    dt = dtype_leaf(it, kw.get("dtype"))

    if name in BIN:
        return cast_if(it, binop(it, BIN[name], a[0], a[1], node), dt)
    if name in CMP:
        return compare(it, CMP[name], a[0], a[1], node)
    if base in ROWWISE or base in FREE_SCALAR or name in ("roll", "cumsum", "cumprod", "sort", "maximum.accumulate", "minimum.accumulate", "add.accumulate"):
        r = over_series(it, name, base, a, kw, node)
        if r is not None:
            return cast_if(it, r, dt)
    if name in ("dot", "inner", "vdot"):
        x, y = as_matrix(it, a[0]), as_matrix(it, a[1])
        if x is not None and y is not None and (x.shape == () or y.shape == ()):
            return mul(it, x, y, node)
        if name in ("inner", "vdot") and not (x is not None and x.shape is not None and len(x.shape) == 1):
            return opaque_num("np." + name, (keyof(a[0]), keyof(a[1])))
        return binop(it, "MatMult", a[0], a[1], node)
    if name == "linalg.multi_dot" or name == "multi_dot":
        items = it.static_items(a[0])
        if items:
            acc = items[0]
            for x in items[1:]:
                acc = it.binop("MatMult", acc, x, node)
            return acc
    if name == "linalg.matrix_transpose" or name == "matrix_transpose":
        s = seqof(it, a[0])
        return swap_last(it, s) if isinstance(s, Seq) else it.ap(lambda x: transpose(it, x) if isinstance(x, Num) else it.unk("transpose"), a[0])
    if name == "negative":
        return neg(it, a[0])
    if name == "positive":
        return a[0]
    if name == "square":
        return binop(it, "Mult", a[0], a[0], node)
    if name == "linalg.matrix_power" and a[1] == IntL(-1):
        return inverse(it, as_matrix(it, a[0]), node)
    if name in ("transpose", "permute_dims"):
        axes = a[1] if len(a) > 1 else kw.get("axes")
        s = seqof(it, a[0])
        if axes is None or axes == NONE:
            if isinstance(s, Seq):
                return num_attr(it, s, "T", node)
            x = as_matrix(it, a[0])
            return transpose(it, x) if x is not None else it.unk("transpose", node)
        ax = shape_arg(it, axes)
        if ax is not None:
            ax = tuple(d.c if d.is_const() else None for d in ax)
            if isinstance(s, Seq) and ax in ((0, 2, 1), (0, -1, -2)):
                return swap_last(it, s)
            if isinstance(s, Seq) and ax in ((0, 1, 2), (0, 1)):
                return a[0]
            x = as_matrix(it, a[0])
            if s is None and x is not None:
                if ax in ((1, 0), (-1, -2), (-1, 0)):
                    return transpose(it, x)
                if ax == (0, 1):
                    return x
        return it.unk("numpy.transpose with axes %r" % (axes,), node)
    if name in ("swapaxes", "moveaxis"):
        s = seqof(it, a[0])
        ax = tuple(x.a.c if isinstance(x, IntL) and x.a.is_const() else None for x in a[1:3])
        if isinstance(s, Seq):
            if set(ax) in ({1, 2}, {-1, -2}, {2, -2}, {1, -1}):
                return swap_last(it, s)
        else:
            x = as_matrix(it, a[0])
            if x is not None and set(ax) in ({0, 1}, {-1, -2}, {0, -1}, {1, -2}):
                return transpose(it, x)
        return it.unk("numpy." + name, node)
    if name in ("linalg.inv", "linalg.pinv"):
        s = seqof(it, a[0])
        if isinstance(s, Seq):
            return alloc(it, s.n, it.ap(lambda b: inverse(it, b, node, base), s.body), "f8")
        x = as_matrix(it, a[0])
        if x is not None:
            if base == "pinv" and (len(a) > 1 or kw):
                it.ev("solve", ("pinv", x.p), node)
                return opaque_num("np.pinv", (x.p,) + tuple(map(keyof, a[1:])) + tuple((k, keyof(v)) for k, v in sorted(kw.items())), x.shape)
            return inverse(it, x, node, base)
    if name in ("linalg.solve", "linalg.lstsq", "linalg.tensorsolve"):
        s0, s1 = seqof(it, a[0]), seqof(it, a[1])
        if isinstance(s0, Seq) and isinstance(s1, Seq) and s0.n == s1.n:
            return alloc(it, s0.n, it.ap(lambda x, y: np_leaf(it, name, [x, y], kw, node), s0.body, s1.body), "f8")
        x, y = as_matrix(it, a[0]), as_matrix(it, a[1])
        if x is not None and y is not None:
            i = inverse(it, x, node, base)
            if y.shape == ():
                it.ev("shape", "solve with a scalar right-hand side", node)
            if x.shape is not None and y.shape and len(x.shape) == 2 and aff(x.shape[1]) != aff(y.shape[0]):
                it.ev("shape", "solve with shapes %s and %s" % (shp(x.shape), shp(y.shape)), node)
            if isnanp(i.p) or isnanp(y.p):
                r = it.fresh(NANP, y.shape, "f8")
            else:
                r = it.fresh(P_mul(i.p, y.p), y.shape, dtfloat(dtj(x.dt, y.dt)))
            if base == "lstsq":
                return Tup([r, Op(("lstsq", "residuals", x.p, y.p)), Op(("lstsq", "rank", x.p)), Op(("lstsq", "s", x.p))])
            return r
    if name == "linalg.cholesky":
        x = as_matrix(it, a[0])
        if x is not None:
            it.ev("solve", ("chol", x.p), node)
            return it.fresh(P_let(Let("chol", (x.p,), False, False, x.shape)), x.shape, "f8")
    if name in ("eye", "identity"):
        n = a[0]
        m = a[1] if len(a) > 1 and name == "eye" else kw.get("M", n)
        k = a[2] if len(a) > 2 else kw.get("k", IntL(0))
        if isinstance(n, IntL) and (m == n or m == NONE) and k == IntL(0):
            p = IDENT
            if n.a != it.ndim_sym() and n.a != Aff(1) and n.a not in (sym("m"), sym("p")):
                p = P_let(Let("np", ("eye", n.a), False, True))
            r = it.fresh(p, (n.a, n.a), "f8" if dt is None else dt)
            return r
        return opaque_num("np.eye", tuple(map(keyof, a)))
    if name == "diag" and False:
        pass
    if name in ("zeros", "ones", "empty", "full"):
        shape = a[0] if a else kw.get("shape")
        sh = shape_arg(it, shape)
        di = 2 if name == "full" else 1
        if len(a) > di:
            dt = dtype_leaf(it, a[di])
        if name == "full":
            fv = a[1] if len(a) > 1 else kw.get("fill_value")
            v = as_num(it, fv)
            if not isinstance(v, Num) or v.shape != ():
                if isinstance(v, Num) and sh and is_series(sh[0]):
                    return alloc(it, aff(sh[0]), Num(v.p, tuple(sh[1:]), frozenset(), dt or "f8"), dt or "f8", tuple(sh[1:]))
                return opaque_num("np.full", (keyof(shape), keyof(fv)), sh)
            p = v.p
            if dt is None:
                dt = "f8" if v.dt in ("f8", "wf") else (v.dt if v.dt is not None else None)
            elif dt not in FLOATS and not (dt in ("f4", "f2") and isnanp(p)) and not p.is_zero():
                p = P_let(Let("castnan", (dt,))) if isnanp(p) else P_let(Let("np", ("cast", dt, p)))
        else:
            if dt is None:
                dt = "f8"
            p = {"zeros": ZERO, "ones": IDENT, "empty": None}[name]
            if p is None:
                it.tok += 1
                p = P_let(Let("np", ("uninitialised", it.tok)))
        if sh is None:
            it.ev("unkshape", keyof(shape), node)
            return opaque_num("np." + name, tuple(map(keyof, a)))
        return mkfilled(it, sh, p, dt, node)
    if name in ("zeros_like", "ones_like", "empty_like", "full_like"):
        src = a[0]
        di = 2 if name == "full_like" else 1
        if len(a) > di:
            dt = dtype_leaf(it, a[di])
        s = seqof(it, src)
        shkw = kw.get("shape")
        n0 = to_num_leaf(it, src) if s is None else None
        sdt = dtype_of(it, s) if isinstance(s, Seq) else (n0.dt if isinstance(n0, Num) else None)
        d = dt if dt is not None else (sdt if sdt is not None else ("like", keyof(src)))
        if name == "full_like":
            fv = a[1] if len(a) > 1 else kw.get("fill_value")
            v = as_num(it, fv)
            if not isinstance(v, Num) or v.shape != ():
                return opaque_num("np.full_like", (keyof(src), keyof(fv)))
            p = v.p
            if d not in FLOATS and not (d in ("f4", "f2") and isnanp(p)) and not p.is_zero():
                p = P_let(Let("castnan", (d,))) if isnanp(p) else P_let(Let("np", ("cast", d, p)))
        elif name == "empty_like":
            it.tok += 1
            p = P_let(Let("np", ("uninitialised", it.tok)))
        else:
            p = ZERO if name == "zeros_like" else IDENT
        if shkw is not None and shkw != NONE:
            return mkfilled(it, shape_arg(it, shkw), p, d, node)
        if isinstance(s, Seq):
            return mkfilled(it, seq_shape(s) or ((s.n,) if s.n is not None else None), p, d, node) if seq_shape(s) is not None else alloc(it, s.n, Num(p, None, frozenset(), d), d)
        if isinstance(src, Ref):
            q = it.as_seq(src, node)
            if isinstance(q, Seq) and seq_shape(q) is not None:
                return mkfilled(it, seq_shape(q), p, d, node)
        if isinstance(n0, Num):
            return mkfilled(it, n0.shape, p, d, node) if n0.shape is not None else it.fresh(p, None, d)
        return it.unk(name, node)
    if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "copy", "asfarray", "require", "asarray_chkfinite", "atleast_1d", "atleast_2d", "atleast_3d", "stack", "vstack", "row_stack", "concatenate", "fromiter"):
        return build(it, name, a, kw, dt, node)
    if name in ("astype",):
        d = dtype_leaf(it, a[1] if len(a) > 1 else kw.get("dtype"))
        cp = kw.get("copy", TRUE)
        r = cast_leaf(it, a[0], d)
        if cp == TRUE and isinstance(r, (Num, Seq, Ref)):
            r = copyleaf(it, r, False, node)
        return r
    if name in ("reshape", "ravel", "squeeze", "expand_dims", "broadcast_to"):
        return reshape(it, name, a, kw, node)
    if name == "isnan":
        x = a[0]
        s = seqof(it, x)
        if isinstance(s, Seq):
            return BArr(("isnan", Seq(s.n, s.body, "list")))
        if isinstance(x, Ref):
            q = it.as_seq(x, node)
            if isinstance(q, Seq):
                return BArr(("isnan", Seq(q.n, q.body, "list")))
        n = to_num_leaf(it, x)
        if isinstance(n, Num):
            return BArr(("isnan", n.p))
        if x == NONE or isinstance(x, (Fun, StrL)):
            return it.exc("TypeError", "isnan of %r" % (x,), node)
        return BArr(("isnan", keyof(x)))
    if name in ("logical_not", "invert", "bitwise_not"):
        if isinstance(a[0], BArr):
            t = a[0].t
            return BArr(t[1] if t[0] == "not" else ("not", t))
        return b_not(it.truth_leaf(a[0]))
    if name in LOG:
        if isinstance(a[0], BArr) or isinstance(a[1], BArr):
            return BArr(("op", LOG[name], keyof(a[0]), keyof(a[1])))
        x, y = it.truth_leaf(a[0]), it.truth_leaf(a[1])
        return b_and(x, y) if name == "logical_and" else b_or(x, y)
    if name in ("all", "any", "alltrue"):
        x = a[0]
        if isinstance(x, BArr):
            return bmeth(it, "any" if name == "any" else "all", x, a[1:], {k: v for k, v in kw.items()}, node)
        if isinstance(x, C) and isinstance(x.v, bool):
            return x
        n = to_num_leaf(it, x)
        return Node((name, keyof(x)), TRUE, FALSE)
    if name in ("isfinite", "isinf", "signbit"):
        n = to_num_leaf(it, a[0])
        if isinstance(n, Num) and isnanp(n.p):
            return BArr(("const", name == "signbit" and False))
        s = seqof(it, a[0])
        return BArr(("op", name, keyof(s if isinstance(s, Seq) else a[0])))
    if name in ("shape", "ndim", "size"):
        s = seqof(it, a[0])
        n = s if isinstance(s, Seq) else to_num_leaf(it, a[0])
        if isinstance(n, (Num, Seq)):
            return num_attr(it, n, name, node)
        return opaque("np." + name, (keyof(a[0]),))
    if name == "isscalar":
        n = to_num_leaf(it, a[0])
        if isinstance(n, Num) and n.shape:
            return FALSE
        if isinstance(a[0], (Seq, Ref)):
            return FALSE
        if isinstance(a[0], (C, IntL)):
            return TRUE
        return Node(("isinstance", keyof(a[0]), "scalar"), TRUE, FALSE)
    if name in ("flip", "flipud"):
        ax = a[1] if len(a) > 1 else kw.get("axis")
        s = seqof(it, a[0])
        if s is None and isinstance(a[0], Ref):
            s = it.as_seq(a[0], node)
        if isinstance(s, Seq) and s.n is not None and (name == "flipud" or ax == IntL(0)):
            return Seq(s.n, subst(s.body, {IOTA: s.n - 1 - sym(IOTA)}), "array", s.owner, s.dt)
        return it.unk("numpy." + name, node)
    if name == "outer":
        x, y = as_matrix(it, a[0]), as_matrix(it, a[1])
        if x is not None and y is not None and x.shape is not None and y.shape is not None and len(x.shape) == 1 and len(y.shape) == 1:
            return it.fresh(P_mul(x.p, P_T(y.p)), (x.shape[0], y.shape[0]))
    if name == "einsum":
        r = einsum(it, a, node)
        if r is not None:
            return r
    if name == "tensordot":
        if len(a) > 2 and a[2] == IntL(1) or kw.get("axes") == IntL(1):
            return binop(it, "MatMult", a[0], a[1], node)
    if name in ("copyto",):
        l, v = a[0], a[1]
        if isinstance(l, Ref):
            it.arr_replace(l, v, node)
        else:
            it.setitem_leaf(l, SliceL(NONE, NONE, NONE), v, node, l)
        return NONE
    if name in PURE_NP_INPLACE:
        for t in getattr(a[0], "owner", ()):
            it.ev("mutate-token", t, node)
        if isinstance(a[0], Num):
            it.inplace(a[0], Num(P_let(Let("np", (name,) + tuple(map(keyof, a)))), a[0].shape, a[0].owner), a[0], node)
        elif isinstance(a[0], Ref):
            it.arr_replace(a[0], Num(P_let(Let("np", (name, keyof(a[1]))))), node)
        return NONE
    if name == "where" and len(a) == 3:
        c = a[0]
        if isinstance(c, C):
            return a[1] if c.v else a[2]
        s1, s2 = seqof(it, a[1]), seqof(it, a[2])
        if isinstance(c, BArr) and s1 is None and s2 is None and mask_len(c.t) is not None and row_of_mask(c.t) is not None:
            v1, v2 = to_num_leaf(it, a[1]), to_num_leaf(it, a[2])
            if isinstance(v1, Num) and isinstance(v2, Num) and v1.shape == () and v2.shape == ():
                return it.unk("numpy.where", node)
        x, y = to_num_leaf(it, a[1]), to_num_leaf(it, a[2])
        sh = x.shape if isinstance(x, Num) else None
        if isinstance(x, Num) and isinstance(y, Num) and x.p == y.p:
            return x
        return opaque_num("np.where", tuple(map(keyof, a)), sh)
    if name == "nan_to_num":
        x = as_matrix(it, a[0])
        if x is not None and isnanp(x.p):
            return mkfilled(it, x.shape, ZERO, "f8", node)
    if name in ("allclose", "array_equal", "isclose", "array_equiv"):
        if name == "isclose":
            return BArr(("op", name) + tuple(map(keyof, a)))
        return Node(("np." + name,) + tuple(map(keyof, a)), TRUE, FALSE)
    if name in ("result_type", "promote_types", "common_type", "find_common_type"):
        d = "none"
        for y in a:
            yd = dtype_leaf(it, y) if isinstance(y, (Fun, Op, C)) and not is_number(y) else None
            if yd is None:
                q = it.as_seq(y, node)
                q = q if isinstance(q, Seq) else to_num_leaf(it, y)
                yd = dtype_of(it, q)
            d = yd if d == "none" else dtj(d, yd)
        if d not in ("none", None):
            return Op(("dtype", d))
        return Op(("dtype", ("result_type",) + tuple(map(keyof, a))))
    if name in ("dtype",):
        d = dtype_leaf(it, a[0])
        return Op(("dtype", d))
    if name in ("issubdtype", "can_cast", "shares_memory", "may_share_memory", "iscomplexobj", "isrealobj"):
        return Node(("isinstance", name) + tuple(map(keyof, a)), TRUE, FALSE)
    if name in ("arange",):
        b = [IntL(0), a[0], IntL(1)] if len(a) == 1 else (a + [IntL(1)])[:3]
        r = range_seq(it, *b)
        return r
    if name in ("finfo",):
        return Op(("finfo",) + tuple(map(keyof, a)))
    if name == "newaxis":
        return NONE
    if name in ("r_", "c_", "ix_", "vectorize", "frompyfunc", "nditer", "ndindex", "ndenumerate"):
        return it.unk("numpy." + name, node)
    # free application: functions known not to coincide with anything modelled above
    sh = None
    n0 = to_num_leaf(it, a[0]) if a else None
    if base in ("conj", "conjugate"):
        return a[0]
    if base not in FREE_SAME and base not in FREE_SCALAR and base not in FREE_OTHER:
        return it.unk("numpy." + name, node)
    if base in FREE_SAME:
        sh = n0.shape if isinstance(n0, Num) else None
        if base in ("real",) and not a:
            return it.unk("numpy." + name, node)
    elif base in FREE_SCALAR and len(a) == 1 and not kw:
        sh = ()
    if base in ("sum", "mean", "trace", "real", "sqrt", "abs", "absolute") and isinstance(n0, Num) and n0.p.is_zero() and len(a) == 1:
        return it.fresh(ZERO, sh)
    if base in ("sum", "mean", "trace", "max", "min", "prod", "median") and isinstance(n0, Num) and n0.shape is not None and ones(n0.shape) and len(a) == 1 and not kw:
        return it.fresh(n0.p, ())
    keys = []
    for x in a:
        s = seqof(it, x)
        keys.append(keyof(s if isinstance(s, Seq) else x))
    return it.mapleaf(lambda x: it.fresh(x.p, x.shape, None), opaque_num("np." + name, tuple(keys) + tuple((k, keyof(v)) for k, v in sorted(kw.items())), sh))


FREE_SAME = {"sqrt", "exp", "log", "abs", "absolute", "fabs", "sin", "cos", "tan", "arctan", "round", "around", "rint", "floor", "ceil", "trunc", "sign", "clip", "maximum", "minimum", "fmax", "fmin", "real", "imag", "nan_to_num", "tanh", "tril", "triu", "cumsum", "cumprod", "sort", "fix", "log1p", "expm1", "cbrt", "reciprocal", "where", "diff", "gradient", "mod", "heaviside", "roll"}
FREE_SCALAR = {"sum", "mean", "max", "min", "amax", "amin", "trace", "det", "norm", "cond", "prod", "std", "var", "median", "nansum", "nanmean", "matrix_rank", "argmax", "argmin", "ptp", "average", "count_nonzero", "slogdet"}
FREE_OTHER = {"diag", "diagonal", "fill_diagonal", "kron", "cov", "corrcoef", "eig", "eigh", "eigvals", "eigvalsh", "svd", "qr", "cross", "nonzero", "unique", "searchsorted", "interp", "percentile", "quantile", "histogram", "convolve", "linspace", "arange", "matrix_power", "expm", "pad", "tile", "repeat", "hstack", "column_stack", "append", "insert", "delete", "take", "choose", "select", "argsort", "argwhere", "bincount", "digitize", "isclose", "logaddexp", "hypot", "arctan2", "full", "eye", "inner", "vdot", "outer", "array"}


def cast_if(it, r, dt):
    return r if dt is None else it.ap(lambda x: cast_leaf(it, x, dt), r)


def build(it, name, a, kw, dt, node):
    from .interp import ListR, ArrR

    x = a[0] if a else kw.get("object", kw.get("a"))
    if name in ("array", "asarray", "asanyarray", "ascontiguousarray", "require", "asfarray") and len(a) > 1 and dt is None:
        dt = dtype_leaf(it, a[1])
    fresh = name in ("array", "copy", "stack", "vstack", "concatenate", "row_stack", "fromiter")
    if kw.get("copy") == FALSE:
        fresh = False
    nd = kw.get("ndmin")
    ax = kw.get("axis", a[1] if name in ("stack", "concatenate") and len(a) > 1 else IntL(0))
    if name in ("atleast_1d", "atleast_2d"):
        n = to_num_leaf(it, x)
        if isinstance(n, Num):
            want = 1 if name == "atleast_1d" else 2
            if n.shape is None:
                return n
            if len(n.shape) >= want:
                return n
            if want == 1:
                return Num(n.p, (Aff(1),), n.owner, n.dt)
            if n.shape == ():
                return Num(n.p, (Aff(1), Aff(1)), n.owner, n.dt)
            return Num(P_T(n.p), (Aff(1), n.shape[0]), n.owner, n.dt)
        s = seqof(it, x)
        if isinstance(s, Seq):
            sh = seq_shape(s)
            if sh is not None and len(sh) >= (1 if name == "atleast_1d" else 2):
                return x
        if isinstance(x, Ref) and isinstance(it.deref(x), ListR):
            return build(it, "array", [x], {}, None, node)
        return it.unk(name, node)
    n = to_num_leaf(it, x)
    if isinstance(n, Num):
        r = cast_leaf(it, n, dt)
        if nd is not None and isinstance(nd, IntL):
            if nd.a == Aff(1):
                r = build(it, "atleast_1d", [r], {}, None, node)
            elif nd.a == Aff(2):
                r = build(it, "atleast_2d", [r], {}, None, node)
        if name in ("stack", "vstack", "concatenate"):
            return r
        return it.fresh(r.p, r.shape, r.dt) if fresh else r
    if isinstance(x, Ref) and isinstance(it.deref(x), ListR) or isinstance(x, Tup):
        return array_of_list(it, name, x, ax, dt, node)
    s = it.as_seq(x, node)
    if isinstance(s, Seq) and s.n is not None:
        if name in ("stack", "vstack", "array", "copy", "row_stack", "fromiter") or fresh:
            if name == "vstack" and rowdim(s) not in (1, 2):
                return it.unk("numpy.vstack", node)
            if name == "stack" and ax != IntL(0):
                return it.unk("numpy.stack", node)
            if name == "concatenate":
                return it.unk("numpy.concatenate", node)
            d = dt
            if d is None:
                d = s.dt
                if d is None:
                    dts = {l.dt for l in leaves(s.body) if isinstance(l, Num)}
                    d = dts.pop() if len(dts) == 1 else None
            body = s.body if dt is None else it.ap(lambda b: cast_leaf(it, b, dt), s.body)
            return alloc(it, s.n, body, d)
        if dt is not None:
            return cast_leaf(it, x, dt)
        if s.kind == "list":
            return alloc(it, s.n, s.body, s.dt)
        return x
    if isinstance(s, Unk):
        return s
    if x == NONE:
        return opaque_num("np.array", (NONE,), ())
    if isinstance(x, Op):
        return Num(P_let(Let("opq", (x.t,))), None, x.owner)
    return it.unk("%s(%r)" % (name, x), node)


def array_of_list(it, name, x, ax, dt, node):
    from .interp import ListR

    segs = it.deref(x).segs if isinstance(x, Ref) else tuple(("one", v) for v in x.xs)
    if name == "concatenate":
        if ax != IntL(0):
            return it.unk("numpy.concatenate", node)
        out = []
        for s in segs:
            if s[0] != "one":
                return it.unk("concatenate of a dynamic list", node)
            if isinstance(s[1], Node):
                q = it.ap(lambda l: it.as_seq(l, node) or it.unk("concatenate"), s[1])
                ls = [l for l in leaves(q)]
                if len(ls) != 1:
                    return it.unk("concatenate of gated arrays", node)
                q = ls[0]
            else:
                q = it.as_seq(s[1], node)
            if not isinstance(q, Seq) or q.n is None:
                return it.unk("concatenate of %r" % (s[1],), node)
            if isinstance(s[1], Num):
                # matrices: block concatenation stays opaque
                if not (s[1].shape is not None and aff(s[1].shape[0]) == Aff(1) and len(s[1].shape) >= 2):
                    return it.unk("numpy.concatenate", node)
                sh = tuple(s[1].shape[1:])
                out.append(("one", Num(P_T(s[1].p) if len(sh) == 1 else s[1].p, sh)))
                continue
            out.append(("run", q.n, q.body))
        lst = ListR(out, TRUE)
        q = it.list_seq(lst)
        return alloc(it, q.n, q.body, dt)
    if name == "stack" and ax not in (IntL(0),):
        return it.unk("numpy.stack", node)
    q = it.list_seq(ListR(segs, TRUE))
    if q is None:
        # conditional items
        return it.unk("array of a list with conditional or unknown items %s" % (segs,), node)
    small = all(s[0] == "one" for s in segs) and (not segs or not is_series(q.n))
    if small:
        from .interp import UNROLL

        ls = [l for s in segs for l in leaves(s[1])]
        if UNROLL[0] and segs and all(isinstance(l, Num) and l.shape for l in ls):
            # one entry per observation
            small = False
    if small:
        scal = all(isinstance(l, (C, IntL)) or isinstance(l, Num) and l.shape == () for l in ls)
        if len(segs) == 1 and not isinstance(segs[0][1], Node):
            v = to_num_leaf(it, segs[0][1])
            if isinstance(v, Num) and v.shape is not None:
                p = v.p
                if len(v.shape) == 1 and not ones(v.shape):
                    p = P_T(p)
                if len(v.shape) <= 1:
                    return it.fresh(p, (Aff(1),) + tuple(v.shape), v.dt)
        key = [keyofv(s[1]) for s in segs]
        sh = (Aff(len(segs)),) if scal else None
        consts = [as_num(it, l) for l in ls]
        if scal and all(isinstance(c, Num) and c.p.is_zero() for c in consts):
            return it.fresh(ZERO, sh)
        r = opaque_num("np.array", tuple(key), sh)
        return it.mapleaf(lambda v: it.fresh(v.p, v.shape), r)
    body = q.body
    if name == "vstack":
        rd = rowdim(q)
        if rd not in (1,):
            if rd == 2:
                # every (1, n) element becomes a row
                def f(b):
                    if isinstance(b, Num) and b.shape is not None and aff(b.shape[0]) == Aff(1):
                        return Num(P_T(b.p), tuple(b.shape[1:]), b.owner, b.dt)
                    return it.unk("vstack")
                body = it.ap(f, body)
            else:
                return it.unk("vstack", node)
    if dt is not None:
        body = it.ap(lambda b: cast_leaf(it, b, dt), body)
    d = dt
    if d is None:
        dts = {l.dt for l in leaves(body) if isinstance(l, Num)}
        d = "none"
        for y in dts:
            d = y if d == "none" else dtj(d, y)
        d = {"none": None, "wf": "f8"}.get(d, d)
    return alloc(it, q.n, body, d)


def reshape(it, name, a, kw, node):
    x = a[0]
    s = seqof(it, x)
    if isinstance(s, Seq):
        if name == "squeeze":
            sh = seq_shape(s)
            ax = a[1] if len(a) > 1 else kw.get("axis")
            if sh is not None and all(aff(d) != Aff(1) for d in sh[1:]) and ax is None:
                low = lo(s.n)
                if low is not None and low > 1:
                    return x
                # a series of one element loses its first axis
                return ite(atom_v(("eq0", s.n - 1)), subst(s.body, {IOTA: Aff(0)}), x)
            if ax == IntL(-1) and sh is not None and aff(sh[-1]) == Aff(1):
                return Seq(s.n, it.ap(lambda b: Num(b.p, b.shape[:-1], b.owner, b.dt) if isinstance(b, Num) else b, s.body), "array", s.owner, s.dt)
        if name == "reshape":
            sh = shape_arg(it, a[1] if len(a) > 1 else kw.get("newshape", kw.get("shape", NONE)))
            cur = seq_shape(s)
            if sh is not None and cur is not None:
                if sh == cur:
                    return x
                sh2 = list(sh)
                if sh2 and sh2[0] == Aff(-1):
                    sh2[0] = s.n
                if len(sh2) > 1 and sh2[-1] == Aff(-1):
                    sh2[-1] = cur[-1] if len(cur) > 1 else Aff(1)
                if tuple(sh2) == tuple(map(aff, cur)):
                    return x
                if aff(sh2[0]) == s.n and dims(sh2[1:]) == dims(cur[1:]) and len(dims(cur[1:])) <= 1:
                    row = tuple(sh2[1:])
                    return Seq(s.n, it.ap(lambda b: reshape_num(it, b, row) if isinstance(b, Num) else b, s.body), "array", s.owner, s.dt)
        if name == "broadcast_to":
            sh = shape_arg(it, a[1])
            if sh == seq_shape(s):
                return x
        if name == "ravel" and seq_shape(s) is not None and len(seq_shape(s)) == 1:
            return x
        return it.unk("numpy." + name, node)
    n = to_num_leaf(it, x)
    if not isinstance(n, Num):
        return it.unk(name + " of %r" % (x,), node)
    if n.shape is None:
        return it.unk("numpy." + name, node)
    if name == "ravel":
        if len(dims(n.shape)) <= 1:
            return reshape_num(it, n, dims(n.shape) or (Aff(1),))
        if len(n.shape) == 2 and a[1:] == [] and not kw:
            # all the elements, row by row
            size = "(%s)*(%s)" % tuple(aff(d) for d in n.shape)
            set_range(size, Aff(1), None)
            return Num(P_let(Let("np", ("ravel", n.p), False, False, (sym(size),))), (sym(size),), frozenset(), n.dt)
    if name == "squeeze":
        ax = a[1] if len(a) > 1 else kw.get("axis", NONE)
        if ax == NONE:
            return reshape_num(it, n, dims(n.shape))
        if isinstance(ax, IntL) and ax.a.is_const():
            i = ax.a.c % max(1, len(n.shape))
            if n.shape and aff(n.shape[i]) == Aff(1):
                return reshape_num(it, n, tuple(d for k, d in enumerate(n.shape) if k != i))
            return it.exc("ValueError", "squeeze", node)
    if name == "expand_dims":
        ax = a[1] if len(a) > 1 else kw.get("axis")
        if isinstance(ax, IntL) and ax.a.is_const() and len(n.shape) == 1:
            return reshape_num(it, n, (n.shape[0], Aff(1)) if ax.a.c in (1, -1) else (Aff(1), n.shape[0]))
    if name in ("reshape", "broadcast_to"):
        tgt = a[1] if len(a) > 1 else kw.get("newshape", kw.get("shape", NONE))
        sh = shape_arg(it, tgt)
        if sh is not None:
            if name == "broadcast_to":
                if tuple(sh) == tuple(map(aff, n.shape)):
                    return n
                if dims(sh) == dims(n.shape):
                    return reshape_num(it, n, sh)
                return it.mapleaf(lambda z: z, Num(fit(it, n, sh, node), sh, n.owner, n.dt))
            d = dims(n.shape)
            sh = list(sh)
            if Aff(-1) in sh:
                i = sh.index(Aff(-1))
                rest = [q for k, q in enumerate(sh) if k != i]
                left = list(map(aff, d))
                for q in rest:
                    if aff(q) in left:
                        left.remove(aff(q))
                    elif aff(q) != Aff(1):
                        left = None
                        break
                if left is not None and len(left) <= 1:
                    sh[i] = left[0] if left else Aff(1)
                else:
                    return it.unk("numpy.reshape", node)
            if dims(sh) == tuple(map(aff, d)):
                if len(d) <= 1:
                    return reshape_num(it, n, tuple(sh))
                if tuple(sh) == tuple(map(aff, n.shape)):
                    return n
                return Num(n.p, tuple(sh), n.owner, n.dt)
            it.ev("shape", "reshape of %s to %s" % (shp(n.shape), shp(tuple(sh))), node)
    return it.unk("numpy." + name, node)


def orient(shape):
    """'row' for (1, k) shapes, 'col' otherwise."""
    return "row" if len(shape) == 2 and aff(shape[0]) == Aff(1) and aff(shape[1]) != Aff(1) else "col"


def reshape_num(it, n, sh):
    p = n.p
    if orient(n.shape) != orient(sh) and not isnanp(p):
        p = P_T(p)
    own = n.owner if sh != () else frozenset()
    return Num(p, tuple(sh), own, n.dt)


def einsum(it, a, node):
    if not a or not isinstance(a[0], C):
        return None
    spec = a[0].v.replace(" ", "")
    if "->" not in spec:
        return None
    ins, out = spec.split("->")
    ins = ins.split(",")
    ops = a[1:]
    if len(ins) != len(ops) or any(len(set(s)) != len(s) for s in ins):
        return None
    nums = [as_matrix(it, o) for o in ops]
    if any(x is None for x in nums):
        return None
    # chain of matrices: order the factors so that shared indices are adjacent
    fac = [(s, x) for s, x in zip(ins, nums)]
    if any(len(s) not in (1, 2) for s, _ in fac):
        return None
    from itertools import permutations, product

    for perm in permutations(range(len(fac))):
        for flips in product((0, 1), repeat=len(fac)):
            chain = []
            ok = True
            for i in perm:
                s, x = fac[i]
                if len(s) == 2 and flips[i]:
                    s, x = s[::-1], transpose(it, x)
                elif flips[i]:
                    ok = False
                    break
                chain.append((s, x))
            if not ok:
                continue
            # inner adjacency
            idx = "".join(s for s, _ in chain)
            acc_s, acc = chain[0]
            for s, x in chain[1:]:
                if len(acc_s) and acc_s[-1] == s[0] and s[0] not in out and idx.count(s[0]) == 2:
                    acc = matmul(it, acc, x, node)
                    acc_s = acc_s[:-1] + s[1:]
                else:
                    ok = False
                    break
            if ok and acc_s == out:
                return acc
    return None
