"""Exact symbolic differentiation of the models shipped with the examples (C32).

The bodies of the transition and observation functions, and of their Jacobians, are read from the syntax
tree into closed forms over the state components: polynomials with rational coefficients over the state,
trigonometric and other elementary functions of such polynomials, and their rational powers.  The derivative
of the former is compared with the latter; a difference must be confirmed at sample states before it is a
violation (two closed forms may be equal by an identity the normal form does not know).
"""
import ast
import glob
import math
import os
from fractions import Fraction as F

from .model import REPO


class Cannot(Exception):
    pass


class Bad(Exception):
    """Evaluation fails with this number of state components."""


# ---------------------------------------------------------------- closed forms
# P: {monomial: Fraction}; monomial: tuple of (atom, exponent) sorted by repr; atom: ("x", i) | ("u", i) |
# (function, polynomial key...) | ("g", polynomial key) for powers of a sum.


class P:
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = {m: c for m, c in (d or {}).items() if c != 0}

    def key(self):
        return tuple(sorted(self.d.items(), key=repr))

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.d:
            return F(0)
        if list(self.d) == [()]:
            return self.d[()]
        return None

    def __repr__(self):
        return " + ".join("%s%s" % (c, "".join("*%s^%s" % (showa(a), e) for a, e in m)) for m, c in sorted(self.d.items(), key=repr)) or "0"


def showa(a):
    if a[0] in ("x", "u"):
        return "%s[%s]" % a
    return "%s(%s)" % (a[0], ", ".join(repr(P(dict(k))) if isinstance(k, tuple) else str(k) for k in a[1:]))


def num(c):
    return P({(): F(c)})


def atom(a, e=1):
    return P({((a, F(e)),): F(1)})


def add(a, b):
    d = dict(a.d)
    for m, c in b.d.items():
        d[m] = d.get(m, F(0)) + c
    return P(d)


def scale(a, k):
    return P({m: c * k for m, c in a.d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mmul(m, n):
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, F(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=repr))


def mul(a, b):
    d = {}
    for m, c in a.d.items():
        for n, k in b.d.items():
            x = mmul(m, n)
            d[x] = d.get(x, F(0)) + c * k
    return tidy(P(d))


def tidy(p):
    """cos^2 = 1 - sin^2, cosh^2 = 1 + sinh^2, positive integer powers of sums expanded."""
    for m, c in p.d.items():
        for a, e in m:
            if a[0] in ("cos", "cosh") and e >= 2:
                rest = P({tuple((b, f) if b != a else (b, f - 2) for b, f in m if b != a or f != 2): c})
                s = atom(("sin" if a[0] == "cos" else "sinh", a[1]), 2)
                one = sub(num(1), s) if a[0] == "cos" else add(num(1), s)
                q = dict(p.d)
                del q[m]
                return tidy(add(P(q), mul(rest, one)))
            if a[0] == "g" and e >= 1:
                rest = P({tuple((b, f) if b != a else (b, f - 1) for b, f in m if b != a or f != 1): c})
                q = dict(p.d)
                del q[m]
                return tidy(add(P(q), mul(rest, P(dict(a[1])))))
    return p


def power(p, r):
    r = F(r)
    if r.denominator == 1 and r >= 0:
        out = num(1)
        for _ in range(int(r)):
            out = mul(out, p)
        return out
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if r.denominator != 1 and m:
            # (x^2)^(1/2) is |x|, not x
            if any(e.numerator % 2 == 0 or a[0] in ("sin", "cos") for a, e in m) or len(m) > 1 or c < 0:
                return atom(("g", p.key()), r) if c != 0 else num(0)
        if r.denominator == 1:
            return P({tuple((a, e * r) for a, e in m): F(c) ** int(r)})
        root = root_of(c, r)
        if root is None:
            return mul(atom(("root", str(c)), r), power(P({m: F(1)}), r)) if m else atom(("root", str(c)), r)
        return P({tuple((a, e * r) for a, e in m): root})
    if not p.d:
        raise Cannot("power of zero")
    # leading coefficient 1
    lead = p.d[min(p.d, key=repr)]
    if r.denominator == 1:
        q = scale(p, 1 / lead)
        return scale(atom(("g", q.key()), r), F(lead) ** int(r))
    return atom(("g", p.key()), r)


def root_of(c, r):
    if c < 0:
        return None
    n = r.denominator
    x = []
    for v in (c.numerator, c.denominator):
        k = round(v ** (1.0 / n))
        if k ** n != v:
            return None
        x.append(k)
    return F(x[0], x[1]) ** int(r.numerator)


def fun(name, p):
    c = p.const()
    if c == 0 and name in ("sin", "tan", "sinh", "tanh", "arctan", "arcsin", "sqrt", "abs"):
        return num(0)
    if c == 0 and name in ("cos", "exp", "cosh"):
        return num(1)
    if name == "sqrt":
        return power(p, F(1, 2))
    if name == "tan":
        return mul(fun("sin", p), power(fun("cos", p), -1))
    if name == "square":
        return mul(p, p)
    lead = p.d[min(p.d, key=repr)] if p.d else F(1)
    if lead < 0 and name in ("sin", "sinh", "tanh", "arctan", "arcsin"):
        return scale(fun(name, scale(p, -1)), -1)
    if lead < 0 and name in ("cos", "cosh", "abs"):
        p = scale(p, -1)
    return atom((name, p.key()))


def diff(p, v):
    out = num(0)
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            da = datom(a, v)
            if not da.d:
                continue
            rest = P({m[:i] + ((a, e - 1),) * (e != 1) + m[i + 1:]: c * e})
            if a[0] == "g":
                rest = tidy(rest)
            out = add(out, mul(rest, da))
    return tidy(out)


def datom(a, v):
    n = a[0]
    if a == v:
        return num(1)
    if n in ("x", "u", "pi", "e", "root", "sym"):
        return num(0)
    p = P(dict(a[1]))
    dp = diff(p, v)
    if n == "g":
        return dp
    if not dp.d and n != "arctan2":
        return num(0)
    if n == "sin":
        return mul(fun("cos", p), dp)
    if n == "cos":
        return scale(mul(fun("sin", p), dp), -1)
    if n == "exp":
        return mul(atom(a), dp)
    if n == "log":
        return mul(power(p, -1), dp)
    if n == "sinh":
        return mul(fun("cosh", p), dp)
    if n == "cosh":
        return mul(fun("sinh", p), dp)
    if n == "tanh":
        return mul(sub(num(1), mul(atom(a), atom(a))), dp)
    if n == "arctan":
        return mul(power(add(num(1), mul(p, p)), -1), dp)
    if n in ("arcsin", "arccos"):
        return scale(mul(power(sub(num(1), mul(p, p)), F(-1, 2)), dp), 1 if n == "arcsin" else -1)
    if n == "arctan2":
        q = P(dict(a[2]))
        return mul(sub(mul(q, dp), mul(p, diff(q, v))), power(add(mul(p, p), mul(q, q)), -1))
    raise Cannot("derivative of %s" % n)


def vanishes(p):
    """Denominators cleared, then the normal form."""
    for _ in range(12):
        gs = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    gs[a] = min(gs.get(a, e), e)
        if not gs:
            break
        a, e = min(gs.items(), key=repr)
        k = F(math.ceil(-e))
        p = tidy(P({mmul(m, ((a, k),)): c for m, c in p.d.items()}))
    return not p.d


def value(p, env):
    t = 0.0
    for m, c in p.d.items():
        v = float(c)
        for a, e in m:
            v *= avalue(a, env) ** float(e)
        t += v
    return t


def avalue(a, env):
    n = a[0]
    if n in ("x", "u"):
        return env.setdefault(a, 0.37)
    if n == "pi":
        return math.pi
    if n == "e":
        return math.e
    if n == "root":
        return float(F(a[1]))
    if n == "sym":
        return env.setdefault(a, 0.53)
    p = value(P(dict(a[1])), env)
    if n == "g":
        return p
    if n == "arctan2":
        return math.atan2(p, value(P(dict(a[2])), env))
    f = {"arctan": math.atan, "arcsin": math.asin, "arccos": math.acos, "abs": abs}.get(n) or getattr(math, n)
    return f(p)


# ---------------------------------------------------------------- arrays: nested lists of P


def shape(v):
    s = []
    while isinstance(v, list):
        s.append(len(v))
        if not v:
            break
        v = v[0]
    return tuple(s)


def flat(v):
    if isinstance(v, list):
        return [y for x in v for y in flat(x)]
    return [v]


def zipw(f, a, b):
    """Elementwise with broadcasting of scalars and leading dimensions."""
    if isinstance(a, list) and isinstance(b, list):
        sa, sb = shape(a), shape(b)
        if len(sa) > len(sb):
            return [zipw(f, x, b) for x in a] if sa[1:] == sb or len(sa) > 1 else [zipw(f, x, b) for x in a]
        if len(sb) > len(sa):
            return [zipw(f, a, y) for y in b]
        if len(a) == len(b):
            return [zipw(f, x, y) for x, y in zip(a, b)]
        if len(a) == 1:
            return [zipw(f, a[0], y) for y in b]
        if len(b) == 1:
            return [zipw(f, x, b[0]) for x in a]
        raise Bad("shapes")
    if isinstance(a, list):
        return [zipw(f, x, b) for x in a]
    if isinstance(b, list):
        return [zipw(f, a, y) for y in b]
    if not isinstance(a, P) or not isinstance(b, P):
        raise Cannot("operand")
    return f(a, b)


def mapw(f, a):
    if isinstance(a, list):
        return [mapw(f, x) for x in a]
    if not isinstance(a, P):
        raise Cannot("operand")
    return f(a)


def matmul(a, b):
    sa, sb = shape(a), shape(b)
    if not sa or not sb:
        return zipw(mul, a, b)
    if len(sa) > 2 or len(sb) > 2 or sa[-1] != sb[0]:
        raise Bad("shapes")

    def dot(x, y):
        t = num(0)
        for i, j in zip(x, y):
            t = add(t, mul(i, j))
        return t
    cols = [list(c) for c in zip(*b)] if len(sb) == 2 else None
    if len(sa) == 1:
        return dot(a, b) if cols is None else [dot(a, c) for c in cols]
    return [dot(r, b) for r in a] if cols is None else [[dot(r, c) for c in cols] for r in a]


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Lam:
    def __init__(self, node, env, mod):
        self.node, self.env, self.mod = node, env, mod


class Lib:
    def __init__(self, name):
        self.name = name


class Meth:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class Cell(list):
    pass


LIBS = {"numpy", "math", "cmath"}
UN = {"sin", "cos", "tan", "exp", "log", "sqrt", "sinh", "cosh", "tanh", "arctan", "arcsin", "arccos", "square", "abs"}
ALIAS = {"atan": "arctan", "asin": "arcsin", "acos": "arccos", "absolute": "abs", "fabs": "abs", "atan2": "arctan2", "float_power": "power", "pow": "power"}


class Mod:
    """One example file: its top-level definitions, evaluated on demand."""

    def __init__(self, path):
        self.path = path
        with open(path, encoding="utf-8") as fh:
            self.tree = ast.parse(fh.read(), path)
        self.defs, self.consts, self.libs, self.cache = {}, {}, {}, {}
        self.calls, self.scopes = 0, {}
        for st in self.tree.body:
            self.top(st)

    def top(self, st):
        if isinstance(st, ast.FunctionDef):
            self.defs[st.name] = st
            self.consts.pop(st.name, None)
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.libs[a.asname or a.name.split(".")[0]] = a.name
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.libs[a.asname or a.name] = "%s.%s" % (st.module, a.name)
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in ts:
                if isinstance(t, ast.Name):
                    # assigned twice at the top level: only the last value matters to a function called later
                    self.consts[t.id] = st.value
                    self.defs.pop(t.id, None)
                elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                    for x, y in zip(t.elts, st.value.elts):
                        if isinstance(x, ast.Name):
                            self.consts[x.id] = y
                            self.defs.pop(x.id, None)
        elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in self.consts:
            e = ast.BinOp(left=self.consts[st.target.id], op=st.op, right=st.value)
            self.consts[st.target.id] = ast.copy_location(e, st)
        elif isinstance(st, (ast.If, ast.Try, ast.With)):
            for b in ast.walk(st):
                if isinstance(b, ast.Name) and isinstance(b.ctx, ast.Store):
                    self.consts[b.id] = None

    def globalv(self, n):
        if n in self.defs:
            return Lam(self.defs[n], None, self)
        if n in self.consts:
            if self.consts[n] is None:
                raise Cannot("%s is set conditionally" % n)
            if n not in self.cache:
                self.cache[n] = None
                self.cache[n] = self.ev(self.consts[n], {})
            if self.cache[n] is None:
                raise Cannot("%s refers to itself" % n)
            return self.cache[n]
        if n in self.libs:
            return Lib(self.libs[n])
        if n in ("range", "len", "float", "int", "sum", "abs", "list", "tuple", "enumerate", "zip", "isinstance", "pow", "print", "min", "max", "map"):
            return Lib("builtins." + n)
        raise Cannot("name %s" % n)

    # -- expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Cannot("%s at line %d" % (type(e).__name__, e.lineno))
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return v
        if isinstance(v, int):
            return num(v)
        if isinstance(v, float):
            return num(F(repr(v)))
        raise Cannot("constant")

    def e_Name(self, e, env):
        s = env
        while s is not None:
            if e.id in s:
                return s[e.id]
            s = s.get("^")
        return self.globalv(e.id)

    def e_List(self, e, env):
        return [self.ev(x, env) for x in e.elts]

    e_Tuple = e_List

    def e_ListComp(self, e, env):
        out = []

        def go(i, s):
            if i == len(e.generators):
                out.append(self.ev(e.elt, s))
                return
            g = e.generators[i]
            for v in self.items(self.ev(g.iter, s)):
                t = {"^": s}
                self.bind(g.target, v, t)
                if all(self.truth(self.ev(c, t)) for c in g.ifs):
                    go(i + 1, t)
        go(0, {"^": env})
        return out

    e_GeneratorExp = e_ListComp

    def e_Lambda(self, e, env):
        return Lam(e, env, self)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.USub):
            return mapw(lambda p: scale(p, -1), v)
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        raise Cannot("operator")

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def e_Compare(self, e, env):
        l = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            if isinstance(op, (ast.Is, ast.IsNot)):
                ok = (l is r) == isinstance(op, ast.Is) if l is None or r is None or isinstance(l, bool) else None
                if ok is None:
                    raise Cannot("identity test")
            else:
                if not isinstance(l, P) or not isinstance(r, P) or l.const() is None or r.const() is None:
                    raise Cannot("condition on the state at line %d" % e.lineno)
                a, b = l.const(), r.const()
                k = type(op).__name__
                if k not in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
                    raise Cannot("comparison")
                ok = {"Eq": a == b, "NotEq": a != b, "Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[k]
            if not ok:
                return False
            l = r
        return True

    def e_BinOp(self, e, env):
        return self.bin(e.op, self.ev(e.left, env), self.ev(e.right, env), e)

    def bin(self, op, a, b, e):
        k = type(op).__name__
        if a is None or b is None:
            raise Bad("arithmetic on None")
        if k == "MatMult":
            return matmul(a, b)
        pl = [x for x in (a, b) if isinstance(x, list) and not isinstance(x, Cell)]
        if pl and k in ("Add", "Mult"):
            if k == "Add" and len(pl) == 2:
                return a + b
            n = a if isinstance(a, P) else b if isinstance(b, P) else None
            if k == "Mult" and n is not None and n.const() is not None and n.const().denominator == 1:
                return (pl[0]) * int(n.const())
        a, b = self.arr(a), self.arr(b)
        f = {
            "Add": add, "Sub": sub, "Mult": mul,
            "Div": lambda x, y: mul(x, power(y, -1)) if y.d else self.zero(),
            "Pow": lambda x, y: power(x, y.const()) if y.const() is not None else self.no("power"),
            "FloorDiv": lambda x, y: num(x.const() // y.const()) if x.const() is not None and y.const() else self.no("floor division"),
            "Mod": lambda x, y: num(x.const() % y.const()) if x.const() is not None and y.const() else self.no("modulo"),
        }.get(k)
        if f is None:
            raise Cannot("operator")
        return self.arr(zipw(f, a, b))

    def no(self, w):
        raise Cannot(w)

    def zero(self):
        raise Bad("division by zero")

    def arr(self, v):
        if isinstance(v, list):
            s = {shape(x) for x in v}
            if len(s) > 1:
                raise Bad("ragged")
            return Cell(self.arr(x) if isinstance(x, list) else x for x in v)
        if isinstance(v, (bool,)) or v is None or isinstance(v, (str, Lam, Lib, Meth)):
            raise Cannot("not a number")
        return v

    def idx(self, i):
        c = i.const() if isinstance(i, P) else None
        if c is None or c.denominator != 1:
            raise Cannot("index")
        return int(c)

    def e_Subscript(self, e, env):
        v = self.ev(e.value, env)
        return self.item(v, e.slice, env)

    def item(self, v, s, env):
        if isinstance(v, U):
            return v.item(self.idx(self.ev(s, env)))
        if isinstance(s, ast.Tuple):
            first, rest = s.elts[0], s.elts[1:]
            if isinstance(first, ast.Slice):
                xs = self.slice(v, first, env)
                if not rest:
                    return xs
                r = rest[0] if len(rest) == 1 else ast.copy_location(ast.Tuple(elts=rest, ctx=ast.Load()), s)
                return Cell(self.item(x, r, env) for x in xs)
            if isinstance(first, ast.Constant) and first.value is None:
                r = rest[0] if len(rest) == 1 else ast.copy_location(ast.Tuple(elts=rest, ctx=ast.Load()), s)
                return Cell([self.item(v, r, env) if rest else v])
            x = self.item(v, first, env)
            if not rest:
                return x
            return self.item(x, rest[0] if len(rest) == 1 else ast.copy_location(ast.Tuple(elts=rest, ctx=ast.Load()), s), env)
        if isinstance(s, ast.Slice):
            return self.slice(v, s, env)
        if isinstance(s, ast.Constant) and s.value is None:
            return Cell([v])
        if isinstance(s, ast.Constant) and s.value is Ellipsis:
            return v
        i = self.idx(self.ev(s, env))
        if not isinstance(v, list):
            raise Bad("index of a scalar")
        if not -len(v) <= i < len(v):
            raise Bad("index out of range")
        return v[i]

    def slice(self, v, s, env):
        if not isinstance(v, list):
            raise Bad("slice of a scalar")
        b = [None if x is None else self.idx(self.ev(x, env)) for x in (s.lower, s.upper, s.step)]
        return type(v)(v[slice(*b)])

    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(v, Lib):
            n = v.name + "." + e.attr
            if n in ("numpy.pi", "math.pi"):
                return atom(("pi",))
            if n in ("numpy.e", "math.e"):
                return atom(("e",))
            if n == "numpy.newaxis":
                return None
            return Lib(n)
        if e.attr == "T" and isinstance(v, list):
            return Cell(Cell(c) for c in zip(*v)) if len(shape(v)) == 2 else v
        if e.attr == "size" and isinstance(v, list):
            return num(len(flat(v)))
        if e.attr == "shape" and isinstance(v, list):
            return [num(x) for x in shape(v)]
        if e.attr == "ndim":
            return num(len(shape(v)))
        return Meth(v, e.attr)

    def items(self, v):
        if isinstance(v, list):
            return list(v)
        raise Cannot("iteration")

    def truth(self, v):
        if v is None or isinstance(v, bool):
            return bool(v)
        if isinstance(v, P) and v.const() is not None:
            return v.const() != 0
        if isinstance(v, list) and not isinstance(v, Cell):
            return bool(v)
        raise Cannot("condition on the state")

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.items(self.ev(a.value, env))
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Cannot("**kwargs")
            kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Lam):
            return f.mod.apply(f, args, kw)
        if isinstance(f, Lib):
            return self.lib(f.name, args, kw)
        if isinstance(f, Meth):
            return self.method(f.obj, f.name, args, kw)
        raise Cannot("call")

    def apply(self, f, args, kw):
        self.calls += 1
        if self.calls > 4000:
            raise Cannot("recursion")
        n = f.node
        if getattr(n, "decorator_list", None):
            raise Cannot("decorated function %s" % n.name)
        a = n.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {"^": f.env}
        if len(args) > len(names):
            if a.vararg is None:
                raise Bad("too many arguments")
            env[a.vararg.arg] = list(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = []
        for k, v in zip(names, args):
            env[k] = v
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            elif a.kwarg is None:
                raise Bad("unexpected argument")
        for k, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if k not in env:
                env[k] = self.ev(d, {"^": f.env})
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if k.arg not in env and d is not None:
                env[k.arg] = self.ev(d, {"^": f.env})
        if any(k not in env for k in names):
            raise Bad("missing argument")
        if isinstance(n, ast.Lambda):
            return self.ev(n.body, env)
        try:
            self.block(n.body, env)
        except Ret as r:
            return r.v
        return None

    def method(self, o, name, args, kw):
        if isinstance(o, list):
            if name in ("copy", "view", "astype"):
                return copy(o)
            if name in ("ravel", "flatten"):
                return Cell(flat(o))
            if name == "dot":
                return self.arr(matmul(o, args[0]))
            if name == "transpose" and not args:
                return Cell(Cell(c) for c in zip(*o)) if len(shape(o)) == 2 else o
            if name == "reshape":
                d = args[0] if len(args) == 1 and isinstance(args[0], list) else args
                return self.reshape(o, [self.idx(x) for x in d])
            if name == "tolist":
                return copy(o)
            if name == "append" and not isinstance(o, Cell):
                o.append(args[0])
                return None
            if name == "sum" and not args and not kw and len(shape(o)) == 1:
                return self.lib("builtins.sum", [o], {})
            if name == "item":
                x = flat(o)
                if not args and len(x) == 1:
                    return x[0]
                if len(args) == 1:
                    i = self.idx(args[0])
                    if -len(x) <= i < len(x):
                        return x[i]
                raise Bad("item")
        if isinstance(o, P) and name in ("copy", "item") and not args:
            return o
        raise Cannot("method %s" % name)

    def reshape(self, o, d):
        x = flat(o)
        n = 1
        for k in d:
            n *= k if k >= 0 else 1
        d = [k if k >= 0 else (len(x) // n if n else 0) for k in d]
        n = 1
        for k in d:
            n *= k
        if n != len(x):
            raise Bad("reshape")
        for k in reversed(d[1:]):
            x = [Cell(x[i:i + k]) for i in range(0, len(x), k)]
        return Cell(x) if d else x[0]

    def lib(self, name, args, kw):
        m, _, n = name.rpartition(".")
        n = ALIAS.get(n, n)
        if m == "builtins":
            if n == "range":
                return [num(i) for i in range(*[self.idx(a) for a in args])]
            if n == "len":
                if isinstance(args[0], list):
                    return num(len(args[0]))
                raise Cannot("len")
            if n == "float":
                return args[0] if isinstance(args[0], P) else self.no("float")
            if n == "int":
                return num(int(args[0].const())) if isinstance(args[0], P) and args[0].const() is not None else self.no("int")
            if n == "sum":
                t = num(0)
                for x in self.items(args[0]):
                    t = add(t, x) if isinstance(x, P) else self.no("sum")
                return t
            if n in ("list", "tuple"):
                return list(self.items(args[0])) if args else []
            if n == "enumerate":
                return [[num(i), x] for i, x in enumerate(self.items(args[0]))]
            if n == "zip":
                return [list(t) for t in zip(*[self.items(a) for a in args])]
            if n == "power":
                return power(args[0], args[1].const()) if args[1].const() is not None else self.no("power")
            if n == "abs":
                return mapw(lambda p: fun("abs", p), args[0])
            if n == "print":
                return None
            if n == "map":
                return [self.call(args[0], list(t), {}) for t in zip(*[self.items(a) for a in args[1:]])]
            raise Cannot(name)
        if m.split(".")[0] not in LIBS:
            raise Cannot("call of %s" % name)
        if kw and set(kw) - {"dtype", "copy", "axis", "ndmin", "order"}:
            raise Cannot("arguments of %s" % name)
        if n in UN and len(args) == 1:
            return self.arr(mapw(lambda p: fun(n, p), self.arr(args[0])))
        if n in ("array", "asarray", "asanyarray", "ascontiguousarray", "float64", "copy", "squeeze_"):
            v = copy(self.arr(args[0]))
            k = self.idx(kw["ndmin"]) if "ndmin" in kw else 0
            while len(shape(v)) < k:
                v = Cell([v])
            return v
        if n in ("atleast_1d", "atleast_2d"):
            v = self.arr(args[0])
            while len(shape(v)) < int(n[8]):
                v = Cell([v])
            return v
        if n == "power":
            return self.bin(ast.Pow(), args[0], args[1], None)
        if n in ("multiply", "add", "subtract", "divide", "true_divide"):
            op = {"multiply": ast.Mult, "add": ast.Add, "subtract": ast.Sub}.get(n, ast.Div)()
            return self.bin(op, self.arr(args[0]), self.arr(args[1]), None)
        if n == "negative":
            return mapw(lambda p: scale(p, -1), self.arr(args[0]))
        if n == "arctan2" or n == "hypot":
            def g(y, x):
                if n == "hypot":
                    return power(add(mul(y, y), mul(x, x)), F(1, 2))
                return atom(("arctan2", y.key(), x.key()))
            return self.arr(zipw(g, self.arr(args[0]), self.arr(args[1])))
        if n in ("zeros", "empty", "ones", "full"):
            d = [self.idx(x) for x in args[0]] if isinstance(args[0], list) else [self.idx(args[0])]
            c = 1
            for k in d:
                c *= k
            fill = num({"zeros": 0, "ones": 1}[n]) if n in ("zeros", "ones") else args[1] if n == "full" else atom(("sym", "uninitialised"))
            return self.reshape([fill] * c, d)
        if n in ("zeros_like", "ones_like", "empty_like"):
            return self.lib("numpy." + n[:-5], [[num(k) for k in shape(args[0])]], {})
        if n in ("eye", "identity"):
            k = self.idx(args[0])
            if len(args) > 1:
                raise Cannot("eye")
            return Cell(Cell(num(int(i == j)) for j in range(k)) for i in range(k))
        if n == "diag" and len(args) == 1:
            v = self.arr(args[0])
            if len(shape(v)) == 1:
                return Cell(Cell(v[i] if i == j else num(0) for j in range(len(v))) for i in range(len(v)))
            return Cell(v[i][i] for i in range(min(shape(v))))
        if n in ("dot", "matmul"):
            return self.arr(matmul(self.arr(args[0]), self.arr(args[1])))
        if n == "transpose" and len(args) == 1:
            v = self.arr(args[0])
            return Cell(Cell(c) for c in zip(*v)) if len(shape(v)) == 2 else v
        if n == "reshape":
            d = args[1]
            return self.reshape(args[0], [self.idx(x) for x in d] if isinstance(d, list) else [self.idx(d)])
        if n in ("ravel",):
            return Cell(flat(self.arr(args[0])))
        ax = self.idx(kw["axis"]) if isinstance(kw.get("axis"), P) else 0
        if n in ("vstack", "stack", "concatenate", "hstack"):
            xs = [self.arr(x) for x in self.items(args[0])]
            if n == "stack" and ax == 0:
                return self.arr(xs)
            if n == "vstack":
                xs = [x if len(shape(x)) > 1 else Cell([x if isinstance(x, list) else Cell([x])][0:1]) for x in xs]
                return self.arr([r for x in xs for r in x])
            if n == "concatenate" and ax == 0:
                return self.arr([r for x in xs for r in self.items(x)])
            if n == "hstack":
                xs = [x if isinstance(x, list) else Cell([x]) for x in xs]
                if all(len(shape(x)) == 1 for x in xs):
                    return self.arr([r for x in xs for r in x])
                return self.arr([[y for x in xs for y in x[i]] for i in range(len(xs[0]))])
            raise Cannot(name)
        if n == "sum" and len(args) == 1 and not kw and len(shape(args[0])) == 1:
            return self.lib("builtins.sum", args, {})
        raise Cannot("call of %s" % name)

    # -- statements
    def block(self, body, env):
        for st in body:
            self.stmt(st, env)

    def stmt(self, st, env):
        if isinstance(st, ast.Return):
            raise Ret(self.ev(st.value, env) if st.value else None)
        if isinstance(st, ast.Expr):
            if isinstance(st.value, ast.Constant):
                return
            self.ev(st.value, env)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value, env)
            for t in st.targets:
                self.bind(t, v, env)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.bind(st.target, self.ev(st.value, env), env)
        elif isinstance(st, ast.AugAssign):
            load = ast.parse(ast.unparse(st.target), mode="eval").body
            old = self.ev(load, env)
            new = self.bin(st.op, old, self.ev(st.value, env), st)
            if isinstance(old, list) and isinstance(new, list) and len(old) == len(new) and isinstance(st.target, ast.Name):
                old[:] = new
            else:
                self.bind(st.target, new, env)
        elif isinstance(st, ast.If):
            self.block(st.body if self.truth(self.ev(st.test, env)) else st.orelse, env)
        elif isinstance(st, ast.For):
            if any(isinstance(x, (ast.Break, ast.Continue)) for x in ast.walk(st)):
                raise Cannot("break")
            for v in self.items(self.ev(st.iter, env)):
                self.bind(st.target, v, env)
                self.block(st.body, env)
            self.block(st.orelse, env)
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = Lam(st, env, self)
        elif isinstance(st, (ast.Pass,)):
            pass
        elif isinstance(st, ast.Assert):
            pass
        else:
            raise Cannot("%s at line %d" % (type(st).__name__, st.lineno))

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.items(v) if not isinstance(v, U) else [v.item(i) for i in range(len(t.elts))]
            if len(xs) != len(t.elts):
                raise Bad("unpacking")
            for a, b in zip(t.elts, xs):
                self.bind(a, b, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            s = t.slice
            path = list(s.elts) if isinstance(s, ast.Tuple) else [s]
            if o is env.get("!state"):
                raise Cannot("the state is changed in place")
            while len(path) > 1:
                if isinstance(path[0], ast.Slice):
                    raise Cannot("assignment to a slice")
                o = self.item(o, path.pop(0), env)
            if not isinstance(o, list):
                raise Bad("assignment to an element")
            if isinstance(path[0], ast.Slice):
                sl = path[0]
                b = [None if x is None else self.idx(self.ev(x, env)) for x in (sl.lower, sl.upper, sl.step)]
                k = len(o[slice(*b)])
                v = [v] * k if isinstance(v, P) else v
                if not isinstance(v, list) or len(v) != k:
                    raise Bad("assignment to a slice")
                o[slice(*b)] = [copy(x) for x in v]
                return
            i = self.idx(self.ev(path[0], env))
            if not -len(o) <= i < len(o):
                raise Bad("index")
            o[i] = v
        else:
            raise Cannot("assignment target")


class U(P):
    """The control of one step: a number or a vector, unknown."""

    __slots__ = ()

    def __init__(self):
        P.__init__(self, {((("u", -1), F(1)),): F(1)})

    def item(self, i):
        return atom(("u", i))


def copy(v):
    return type(v)(copy(x) for x in v) if isinstance(v, list) else v


# ---------------------------------------------------------------- the check


def models(path):
    """(module, call node, {role: expression}, scope) of every extended filter the file constructs."""
    m = Mod(path)
    ekf = {k for k, v in m.libs.items() if v.split(".")[0] == "kalmankit" and v.split(".")[-1] == "ExtendedKalmanFilter"}
    out = []
    fns = [None] + [n for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef)]
    for c in ast.walk(m.tree):
        if not isinstance(c, ast.Call):
            continue
        name = c.func
        ok = isinstance(name, ast.Name) and name.id in ekf or isinstance(name, ast.Attribute) and name.attr == "ExtendedKalmanFilter"
        if not ok:
            continue
        scope = [f for f in fns if f is not None and any(x is c for x in ast.walk(f))]
        out.append((m, c, scope))
    return out


PARAMS = ["xk", "Pk", "Q", "R", "f", "h", "jacobian_A", "jacobian_H"]


def signature():
    """Parameter order of ExtendedKalmanFilter.__init__ in the current source."""
    try:
        with open(os.path.join(REPO, "src/kalmankit/extended.py"), encoding="utf-8") as fh:
            t = ast.parse(fh.read())
        for c in t.body:
            if isinstance(c, ast.ClassDef) and c.name == "ExtendedKalmanFilter":
                for f in c.body:
                    if isinstance(f, ast.FunctionDef) and f.name == "__init__":
                        return [a.arg for a in f.args.args[1:]]
    except (OSError, SyntaxError):
        pass
    return PARAMS


def roles(m, c, scope):
    ps = signature()
    out = {}
    for p, a in zip(ps, c.args):
        if isinstance(a, ast.Starred):
            raise Cannot("*args")
        out[p] = a
    for k in c.keywords:
        if k.arg is None:
            # a dictionary display assigned once, by name
            raise Cannot("**kwargs")
        out[k.arg] = k.value
    env = {}
    # local helper functions and simple bindings of the enclosing functions
    for f in scope:
        for st in ast.walk(f):
            if isinstance(st, ast.FunctionDef) and st is not f:
                env[st.name] = Lam(st, env, m)
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n = st.targets[0].id
                if isinstance(st.value, ast.Lambda):
                    env[n] = Lam(st.value, env, m)
                else:
                    try:
                        env[n] = m.ev(st.value, dict(env))
                    except (Cannot, Bad):
                        env.pop(n, None)
    return {k: m.ev(out[k], env) for k in ("f", "h", "jacobian_A", "jacobian_H") if k in out}


def state(n):
    return Cell(atom(("x", i)) for i in range(n))


def matrix(v, rows, cols):
    """Rows of the Jacobian, accepting a single row written flat."""
    s = shape(v)
    if s == (rows, cols):
        return v
    if rows == 1 and s == (cols,):
        return [v]
    if cols == 1 and s == (rows,):
        return [[x] for x in v]
    if s == () and rows == cols == 1:
        return [[v]]
    return None


def check(rep):
    files = sorted(glob.glob(os.path.join(REPO, "examples", "**", "*.py"), recursive=True))
    found = 0
    for p in files:
        rel = os.path.relpath(p, REPO)
        try:
            ms = models(p)
        except SyntaxError as e:
            rep.add("derivative", rel, None, "does not parse: %s" % e)
            continue
        for m, c, scope in ms:
            found += 1
            at = "%s:%d" % (rel, c.lineno)
            try:
                r = roles(m, c, scope)
            except (Cannot, Bad) as e:
                rep.add("derivative", at, None, "arguments of the filter: %s" % e)
                continue
            for fn, jn in (("f", "jacobian_A"), ("h", "jacobian_H")):
                if fn not in r or jn not in r:
                    rep.add("derivative", "%s and %s of %s" % (fn, jn, rel), None, "not passed to the filter")
                    continue
                for u in ([None], [U()]) if fn == "f" else ([],):
                    one(rep, rel, r, fn, jn, u)
            rep.functions.update("%s:%s" % (rel, getattr(r[k].node, "name", "<lambda>")) for k in r if isinstance(r[k], Lam))
            rep.sites += m.calls
    if not found:
        from .loader import AnalysisBroken
        raise AnalysisBroken("no example constructs an ExtendedKalmanFilter")


def dim(r):
    why = None
    for n in range(1, 10):
        for u in (None, U()):
            try:
                v = r["f"].mod.call(r["f"], [state(n), u], {})
            except Bad as e:
                why = e
                continue
            if isinstance(v, P) and n == 1 or isinstance(v, list) and len(flat(v)) == n:
                return n
    raise Cannot("number of state components not found (%s)" % why)


def one(rep, rel, r, fn, jn, u):
    rule, inst = "derivative", "%s is the derivative of %s in %s%s" % (jn, fn, rel, "" if not u else ", without control" if u[0] is None else ", with control")
    try:
        if not isinstance(r[fn], Lam) or not isinstance(r[jn], Lam):
            raise Cannot("%s is not a function of the file" % fn)
        n = dim(r)
        mod = r[fn].mod
        try:
            y = mod.call(r[fn], [state(n)] + u, {})
        except Bad as e:
            if u and u[0] is None:
                return  # the model needs a control
            raise Cannot(str(e))
        y = flat(y) if isinstance(y, list) else [y]
        if not all(isinstance(x, P) for x in y):
            raise Cannot("%s does not return numbers" % fn)
        x = state(n)
        try:
            j = mod.call(r[jn], [x] + u, {})
        except Bad as e:
            rep.add(rule, inst, False, "%s fails (%s) where %s does not" % (jn, e, fn), "%s:%d" % (rel, r[jn].node.lineno))
            return
        j = matrix(j, len(y), n)
        where = "%s:%d (%s)" % (rel, r[jn].node.lineno, getattr(r[jn].node, "name", jn))
        if j is None:
            rep.add(rule, inst, False, "%s returns shape %s for %d outputs and %d state components" % (jn, shape(mod.call(r[jn], [state(n)] + u, {})), len(y), n), where)
            return
        bad, unk = [], []
        for i in range(len(y)):
            for k in range(n):
                want = diff(y[i], ("x", k))
                got = j[i][k]
                if not isinstance(got, P):
                    raise Cannot("%s does not return numbers" % jn)
                d = sub(got, want)
                if vanishes(d):
                    continue
                w = confirm(d, n)
                (bad if w else unk).append("entry (%d, %d) is %r, the derivative is %r%s" % (i, k, got, want, "; they differ at x = %s" % (w,) if w else ""))
        if bad:
            rep.add(rule, inst, False, "\n".join(bad)[:1500], where)
        elif unk:
            rep.add(rule, inst, None, "closed forms differ but agree at the sample states: " + "; ".join(unk)[:800])
        else:
            rep.add(rule, inst, True, "%d entries" % (len(y) * n), where)
    except Cannot as e:
        rep.add(rule, inst, None, str(e))
    except RecursionError:
        rep.add(rule, inst, None, "recursion")


def confirm(d, n):
    for s in range(1, 6):
        env = {("x", i): math.sin(1.7 * s + 2.3 * i) + 0.2 * s for i in range(n)}
        pt = [round(env[("x", i)], 4) for i in range(n)]
        env.update({("u", i): 0.41 * s + 0.3 * i for i in range(-1, 6)})
        try:
            v = value(d, env)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        if isinstance(v, complex):
            continue
        if abs(v) > 1e-9:
            return pt
    return None


ASSUME = ["Numbers are exact: decimal literals are read as the rational they denote."]
TRUST = ["kfa/jac.py: reading of the model functions and differentiation rules"]
CHECKS = {"C32": check}
