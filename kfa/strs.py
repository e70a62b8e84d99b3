"""String, collection and child-process domain for the version lookup (an extension of the engine).

Strings are concatenations of literals and terms; a term names where a string came from (a command's output, an archive keyword,
a slice of another string ...).  Predicates on strings are atoms of the decision diagrams.  Lists of
strings are comprehensions over a base term (class SL).
"""
import ast
import re

from .terms import *  # noqa: F401,F403
from .terms import RANGES
from . import npmodel
from .interp import Interp, Unsupported, ListR, DictR, EnvR, InstR, leaf_gates, dotted, where

sre = re._parser


class Missing(Leaf):
    """Absent dictionary entry / unbound local."""

    __slots__ = ()

    def key(self):
        return ()

    def __repr__(self):
        return "<absent>"


MISSING = Missing()
REMOVED = C("<removed>")


class SL(Leaf):
    """Collection [elt(x) for x in base if cond(x)]; kind 'list' or 'set'; bound variable ('bv',)."""

    __slots__ = ("kind", "base", "cond", "elt")

    def __init__(self, kind, base, cond=TRUE, elt=None):
        self.kind, self.base, self.cond = kind, base, cond
        self.elt = StrL((BV,)) if elt is None else elt

    def key(self):
        return (self.kind, self.base, self.cond, self.elt)


class SLR:
    """Heap record of a string collection."""

    __slots__ = ("v", "birth", "shared")

    def __init__(self, v, birth, shared=False):
        self.v, self.birth, self.shared = v, birth, shared


BV = ("bv",)
X = StrL((BV,))


def A(*a):
    return Node(tuple(a), TRUE, FALSE)


# ---------------------------------------------------------------- substitution of the bound variable


class Sub:
    def __init__(self, it, m):
        self.it, self.m = it, m

    def term(self, t):
        """Term -> gated StrL."""
        return self.it.ap0(lambda l: l, self.val(StrL((t,))))

    def hasbv(self, t):
        if t == BV:
            return True
        if isinstance(t, tuple):
            if t and t[0] in ("exists", "first"):
                return self.hasbv(t[1])  # the condition binds its own variable
            return any(self.hasbv(x) for x in t)
        if isinstance(t, SL):
            return self.hasbv(t.base)  # bound inside
        if isinstance(t, StrL):
            return self.hasbv(t.fr)
        if isinstance(t, (Op,)):
            return self.hasbv(t.t)
        if isinstance(t, Tup):
            return any(self.hasbv(x) for x in t.xs)
        if isinstance(t, IntL):
            return self.hasbv(t.a)
        if isinstance(t, Aff):
            return any("('bv',)" in s for s in t.syms())
        if isinstance(t, Node):
            return self.hasbv(t.atom) or self.hasbv(t.hi) or self.hasbv(t.lo)
        return False

    def raw(self, t):
        """Replace inside a term; the replacement must be a single-term string or a constant."""
        if t == BV:
            return self.m
        if isinstance(t, tuple):
            if t and t[0] in ("exists", "first"):
                return (t[0], self.raw(t[1]), t[2])
            return tuple(self.raw(x) for x in t)
        if isinstance(t, StrL):
            return mkstr(self.raw(t.fr))
        if isinstance(t, SL):
            return SL(t.kind, self.raw(t.base), t.cond, t.elt)
        if isinstance(t, Aff):
            return self.aff(t)
        return t

    def val(self, v):
        if isinstance(v, Node):
            c = self.atom(v.atom) if self.hasbv(v.atom) else Node(v.atom, TRUE, FALSE)
            return ite(c, self.val(v.hi), self.val(v.lo))
        if not self.hasbv(v):
            return v
        if isinstance(v, StrL):
            return mkstr(self.raw(v.fr))
        if isinstance(v, Op):
            return Op(self.raw(v.t), v.owner)
        if isinstance(v, Tup):
            return Tup([self.val(x) for x in v.xs], v.names)
        if isinstance(v, SL):
            return self.raw(v)
        if isinstance(v, IntL):
            return IntL(self.aff(v.a))
        return v

    def aff(self, a):
        out = Aff(a.c)
        for s, k in a.t:
            n = s.replace("('bv',)", repr(self.m))
            if n != s and s in self.it.idx:
                i = self.it.idx[s]
                self.it.idx[n] = (i[0], self.raw(i[1]), i[2] if i[0] == "len" else self.raw(i[2]))
                if s in RANGES:
                    RANGES.setdefault(n, RANGES[s])
            out = out + sym(n).scale(k)
        return out

    def atom(self, a):
        if a[0] == "exists":
            return A("exists", self.raw(a[1]), a[2])
        return self.it.satom(a[0], *[self.raw(x) for x in a[1:]])


def mkstr(fr):
    return npmodel.mkstr(tuple(fr))


def keyof(l):
    """Term of a string value."""
    if isinstance(l, C) and isinstance(l.v, str):
        return l.v
    if isinstance(l, StrL):
        return l.fr[0] if len(l.fr) == 1 else ("cat",) + l.fr
    return npmodel.keyof(l)


def isstr(l):
    return isinstance(l, StrL) or isinstance(l, C) and isinstance(l.v, str)


# ---------------------------------------------------------------- regular expressions


def canon_pattern(p, mode):
    """(pattern text, mode) with equivalent spellings merged."""
    p = p.replace("[0-9]", "\\d").replace("(?:)", "")
    p = re.sub(r"\(\?P<\w+>", "(", p)
    if mode == "search" and p.startswith("^") and "|" not in p:
        p, mode = p[1:], "match"
    elif mode == "match" and p.startswith("^"):
        p = p[1:]
    if mode == "fullmatch":
        p = (p[1:] if p.startswith("^") else p) + ("" if p.endswith("$") else "$")
        mode = "match"
    return p, mode


def _items(data):
    """Regular expression as a list of ('lit', c) / ('group', [(charset, min, max)]) / ('rep', ...) items, or None."""
    out = []
    for op, av in data:
        n = str(op)
        if n == "LITERAL":
            out.append(("lit", chr(av)))
        elif n == "SUBPATTERN":
            sub = _items(av[3])
            if sub is None:
                return None
            out.append(("group", sub) if av[0] else ("seq", sub))
        elif n in ("MAX_REPEAT", "MIN_REPEAT"):
            lo_, hi_, body = av
            if len(body) != 1:
                return None
            cs = charset(body[0])
            if cs is None:
                return None
            out.append(("rep", cs, lo_, 10 ** 9 if str(hi_) == "MAXREPEAT" else int(hi_), n))
        elif n in ("IN", "ANY", "NOT_LITERAL"):
            cs = charset((op, av))
            if cs is None:
                return None
            out.append(("rep", cs, 1, 1, "MAX_REPEAT"))
        elif n == "AT":
            out.append(("at", str(av)))
        else:
            return None
    return out


def charset(tok):
    op, av = tok
    n = str(op)
    if n == "LITERAL":
        return frozenset([chr(av)])
    if n == "ANY":
        return frozenset(chr(i) for i in range(32, 127))
    if n == "NOT_LITERAL":
        return frozenset(chr(i) for i in range(32, 127)) - {chr(av)}
    if n != "IN":
        return None
    out, neg = set(), False
    for o, a in av:
        m = str(o)
        if m == "NEGATE":
            neg = True
        elif m == "LITERAL":
            out.add(chr(a))
        elif m == "RANGE":
            out |= {chr(i) for i in range(a[0], a[1] + 1)}
        elif m == "CATEGORY" and str(a) == "CATEGORY_DIGIT":
            out |= set("0123456789")
        elif m == "CATEGORY" and str(a) == "CATEGORY_WORD":
            out |= {chr(i) for i in range(128) if chr(i).isalnum()} | {"_"}
        else:
            return None
    return frozenset(chr(i) for i in range(32, 127)) - out if neg else frozenset(out)


def pattern_items(p):
    try:
        return _items(sre.parse(p))
    except re.error:
        return None


def group_info(p, k):
    """(always takes part, minimal width, only digits) of group k."""
    try:
        tree = sre.parse(p)
    except re.error:
        return None

    def find(data, always):
        for op, av in data:
            n = str(op)
            if n == "SUBPATTERN":
                if av[0] == k:
                    return always, av[3].getwidth()[0], av[3]
                r = find(av[3], always)
                if r:
                    return r
            elif n in ("MAX_REPEAT", "MIN_REPEAT"):
                r = find(av[2], always and av[0] > 0)
                if r:
                    return r
            elif n == "BRANCH":
                for b in av[1]:
                    r = find(b, False)
                    if r:
                        return r
        return None

    r = find(tree, True)
    if r is None:
        return None
    its = _items(r[2])
    digits = bool(its) and all(i[0] == "rep" and i[1] <= frozenset("0123456789") for i in its)
    return r[0], r[1], digits


def required_literals(p):
    its = pattern_items(p)
    return [i[1] for i in its if i[0] == "lit"] if its else []


# ---------------------------------------------------------------- the interpreter


READ_ONLY_OS = {"path", "environ", "getcwd", "fspath", "sep", "getenv", "linesep", "name", "curdir", "pardir"}


def canon_args(words):
    ws = list(words)
    i = 0
    out = []
    while i < len(ws):
        if ws[i] in ("--match", "--exclude", "--format") and i + 1 < len(ws):
            out.append(ws[i] + "=" + ws[i + 1])
            i += 2
            continue
        out.append(ws[i])
        i += 1
    head, rest = out[:1], out[1:]
    return tuple(head + sorted(set(w for w in rest if w.startswith("-"))) + [w for w in rest if not w.startswith("-")])


class VInterp(Interp):
    def __init__(self, loader, tag="", cfg=None):
        super().__init__(loader, tag, cfg)
        self.platform = (cfg or {}).get("platform", "linux")
        self.procs = []
        self.effects = []
        self.modpending = []
        self.opens = []
        self.collect = []
        self.environ = self.new(DictR({}, TRUE, True, ("environ",)))
        self.idx = {}
        self.caps = {}
        self.assume = (cfg or {}).get("assume", {})

    # -- helpers
    def A(self, *a):
        """Atom, decided when the scenario under analysis decides it."""
        v = self.assume.get(a, self.assume.get(a[0]))
        return A(*a) if v is None else C(v)

    def rc(self, key):
        v = self.assume.get(("rc", key), self.assume.get("rc"))
        s = "rc:" + " ".join(map(str, key))
        if v == 0:
            return IntL(0)
        if v == "fails":
            RANGES.setdefault(s + "+", (Aff(1), None))
            RANGES.setdefault(s + "-", (None, Aff(-1)))
            self.idx[s + "+"] = self.idx[s + "-"] = ("rc", key, None)
            return ite(A("signalled", key), IntL(sym(s + "-")), IntL(sym(s + "+")))
        self.idx[s] = ("rc", key, None)
        return IntL(sym(s))

    def ap0(self, f, v):
        return lift(f, TRUE, v)

    def known(self, c):
        """TRUE / FALSE when the current gate decides the predicate, else None."""
        g = b_and(self.g, cube_guard(self.cube0)) if CUBE[self.cube0:] else self.g
        if g == FALSE:
            return None
        if b_and(g, b_not(c)) == FALSE:
            return True
        if b_and(g, c) == FALSE:
            return False
        return None

    def satom(self, kind, *a):
        """String predicate with its known consequences."""
        k = a[0] if a else None
        if kind in ("eq0", "ge0"):
            return atom_v((kind,) + a)
        if kind in ("starts", "ends", "has", "eq") and isinstance(k, str) and isinstance(a[1], str):
            return C({"starts": k.startswith, "ends": k.endswith, "has": lambda c: c in k, "eq": lambda c: c == k}[kind](a[1]))
        if kind == "empty":
            if isinstance(k, str):
                return C(k == "")
            return self.empty(k)
        if kind == "match" and isinstance(k, str):
            p, mode = a[1], a[2]
            return C(bool(getattr(re, mode)(p, k)))
        if kind in ("starts", "ends", "has") and a[1] == "":
            return TRUE
        if kind in ("starts", "has") and isinstance(a[1], str) and "$Format" in a[1]:
            b = k
            while isinstance(b, tuple) and b[0] in ("strip", "lstrip", "rstrip"):
                b = b[1]
            if isinstance(b, tuple) and b[0] == "kw":
                return FALSE  # git has substituted it
        if kind == "starts" and isinstance(k, tuple) and k[0] == "cat" and isinstance(k[1], str) and isinstance(a[1], str):
            n = min(len(k[1]), len(a[1]))
            if k[1][:n] != a[1][:n]:
                return FALSE
            if len(k[1]) >= len(a[1]):
                return TRUE
        if kind == "has" and isinstance(a[1], str):
            if isinstance(k, tuple) and k[0] == "cat":
                if any(isinstance(f, str) and a[1] in f for f in k[1:]):
                    return TRUE
                if len(a[1]) == 1:
                    r = FALSE
                    for f in k[1:]:
                        if not isinstance(f, str):
                            r = b_or(r, self.satom("has", f, a[1]))
                    return r
            if isinstance(k, tuple) and k[0] == "slice" and k[3] is None and isinstance(k[2], int) and len(a[1]) == 1:
                # dropping a known prefix that does not contain the character
                for at in atoms_of(self.g):
                    if at[0] == "starts" and at[1] == k[1] and len(at[2]) == k[2] and a[1] not in at[2] and self.known(Node(at, TRUE, FALSE)):
                        return self.satom("has", k[1], a[1])
            r = A("has", *a)
            for q in ("ends", "starts"):
                n = A(q, *a)
                if n.atom in atoms_of(self.g):
                    r = b_or(n, r)
            return r
        if kind == "eq":
            x, y = a
            if x == y:
                return TRUE
            if isinstance(x, str):
                x, y = y, x
            if y == "":
                return self.satom("empty", x)
            if isinstance(y, str) and isinstance(x, tuple) and x[0] == "cat" and isinstance(x[1], str):
                n = min(len(x[1]), len(y))
                if x[1][:n] != y[:n]:
                    return FALSE
            if not isinstance(y, str) and repr(x) > repr(y):
                x, y = y, x
            return A("eq", x, y)
        return A(kind, *a)

    def empty(self, k):
        if k[0] == "group":
            gi = group_info(k[1], k[4])
            if gi and gi[1] > 0:
                return FALSE
        if k[0] == "cat" and any(isinstance(f, str) and f for f in k[1:]):
            return FALSE
        b = k
        while isinstance(b, tuple) and b[0] == "strip" and b[2] is None:
            b = b[1]
        if b[0] == "out" and b[1][0] in ("show", "describe", "rev-parse", "log"):
            return FALSE  # these print something when they succeed
        if k[0] == "kw" and k[1] != "%d" or k[0] == "strip" and isinstance(k[1], tuple) and k[1][0] == "kw" and k[1][1] != "%d":
            return FALSE
        if k[0] == "item" and k[1][0] == "lines" and k[2] == -1:
            return self.empty(k[1][1])
        return A("empty", k)

    def strv(self, t):
        return StrL((t,)) if isinstance(t, tuple) else C(t)

    # -- modules, names
    def module(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.loader.load(name)
        if m is None:
            return None
        e = self.new(EnvR({"__name__": C(name)}, None, TRUE)).id
        self.modenv[name] = e
        sv = (self.g, self.frames, self.shared, self.loops, self.pending, self.cube0)
        self.shared, self.loops, self.pending = True, [], []
        self.g = TRUE
        self.cube0 = len(CUBE)
        self.frames = [dict(env=e, name="<module %s>" % name, ret=BOT, retg=FALSE, mod=m, cls=None, absloop=0, module=True)]
        try:
            for st in m.tree.body:
                try:
                    self.stmt(st)
                except Unsupported as u:
                    for n in assigned(st):
                        self.env_set(e, n, Unk(str(u)))
                self.g = TRUE
        finally:
            self.modpending += [(name,) + p for p in self.pending]
            self.g, self.frames, self.shared, self.loops, self.pending, self.cube0 = sv
        return e

    def env_set(self, eid, name, v):
        r = self.heap[eid]
        old = r.vars.get(name, MISSING)
        self.heap[eid] = r.with_(name, ite(self.rel(r.birth), v, old))

    def s_Delete(self, st):
        rest = []
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.setname(t.id, MISSING)
                continue
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                done = True
                for l, gl in leaf_gates(o):
                    r = self.deref(l) if isinstance(l, Ref) else None
                    if isinstance(r, DictR):
                        sv = self.g
                        self.g = b_and(sv, gl)
                        self.dict_pop(l, self.eval(t.slice), None, st)
                        self.g = b_or(b_and(sv, b_not(gl)), self.g)
                    else:
                        done = False
                if done:
                    continue
            rest.append(t)
        if rest:
            super().s_Delete(ast.Delete(targets=rest))

    def name(self, n, node):
        if n == "__file__" and not any("__file__" in self.heap[f["env"]].vars for f in self.frames[-1:]):
            m = self.frames[-1]["mod"]
            return self.ap(lambda b: self.exc("NameError", "__file__", node) if b == TRUE else StrL((("file",),)), self.A("nofile"))
        v = super().name(n, node)
        if any(l is MISSING or isinstance(l, Missing) for l in leaves(v)):
            return self.ap(lambda l: self.exc("UnboundLocalError", n, node) if isinstance(l, Missing) else l, v)
        return v

    def e_Constant(self, e):
        v = super().e_Constant(e)
        if isinstance(v, C) and isinstance(v.v, str):
            ms = list(re.finditer(r"\$Format:([^$]*)\$", v.v))
            if ms:
                fr, p = [], 0
                for m in ms:
                    fr += [v.v[p:m.start()], ("kw", m.group(1))]
                    p = m.end()
                fr.append(v.v[p:])
                return ite(self.A("expanded"), mkstr(fr), v)
        return v

    def handler_matches(self, h, etype):
        if h.type is None:
            return True
        sv = (self.g, list(self.pending), list(self.events))
        self.g = TRUE
        v = self.eval(h.type)
        self.g, self.pending, self.events = sv
        names = set()
        for l in leaves(v):
            for x in (l.xs if isinstance(l, Tup) else [l]):
                if isinstance(x, Fun) and x.kind == "class":
                    names.add(self.classes[x.data].name)
                elif isinstance(x, Fun):
                    names.add(str(x.data).split(".")[-1])
                else:
                    raise Unsupported(h, "exception handler %r" % (x,))
        return bool(names & self.ancestors(etype))

    def ancestors(self, etype):
        import builtins

        for c in self.classes.values():
            if c.name == etype:
                out = {"BaseException"}
                for k in c.mro(self.classes):
                    out.add(k.name)
                    for b in k.extbases:
                        out |= self.ancestors(b.split(".")[-1])
                return out
        b = getattr(builtins, etype, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            out = {x.__name__ for x in b.__mro__} | {etype}
            return out | ({"IOError", "EnvironmentError", "error"} if "OSError" in out else set())
        if etype in ("CalledProcessError", "TimeoutExpired"):
            return {etype, "SubprocessError", "Exception", "BaseException"}
        return {etype, "Exception", "BaseException"}

    # -- truth
    def truth_leaf(self, l):
        if isinstance(l, StrL):
            if any(isinstance(f, str) for f in l.fr):
                return TRUE
            r = FALSE
            for f in l.fr:
                r = b_or(r, b_not(self.satom("empty", f)))
            return r
        if isinstance(l, SL):
            return self.exists(l, TRUE)
        if isinstance(l, Ref) and isinstance(self.deref(l), SLR):
            return self.ap(self.truth_leaf, self.deref(l).v)
        if isinstance(l, Op) and l.t[0] in ("mo", "popen"):
            return TRUE
        if isinstance(l, Ref) and isinstance(self.deref(l), DictR) and self.deref(l).ext is None:
            r = FALSE
            for v in self.deref(l).items.values():
                r = b_or(r, self.ap0(lambda x: C(not isinstance(x, Missing)), v))
            return r
        return super().truth_leaf(l)

    def exists(self, sl, P):
        """Some element of the collection satisfies P (a predicate on the element of the *base*)."""
        base, c, elt = self.unordered(SL(sl.kind, sl.base, b_and(sl.cond, P), sl.elt))
        if c == FALSE:
            return FALSE
        if c == TRUE:
            return self.nonempty(base)
        if not Sub(self, None).hasbv(c):
            return b_and(c, self.nonempty(base))
        # conditions that do not concern the element are kept outside
        return self.split_free(c, lambda q: TRUE_IF(q, base, self))

    def split_free(self, c, k):
        if isinstance(c, Node) and not Sub(self, None).hasbv(c.atom):
            return ite(Node(c.atom, TRUE, FALSE), self.split_free(c.hi, k), self.split_free(c.lo, k))
        return k(c)

    def nonempty(self, base):
        if base[0] == "split" and base[2] is not None:
            return TRUE
        if base[0] == "lines":
            return b_not(self.satom("empty", base[1]))
        return b_not(A("empty", base))

    def unordered(self, sl):
        """Base, condition and element with order and multiplicity forgotten."""
        base, cond, elt = sl.base, sl.cond, sl.elt
        while isinstance(base, tuple) and base[0] in ("sorted", "rsorted", "unordered", "list", "sortedby"):
            inner = base[-1]
            s = self.subst_elt(inner.elt)
            cond, elt = b_and(inner.cond, s(cond)), s(elt)
            base = inner.base
        return base, cond, elt

    def subst_elt(self, elt):
        """Function replacing the bound variable by elt (gated)."""
        def f(v):
            r = BOT
            for l, g in leaf_gates(elt):
                k = keyof(l)
                r = ite(g, Sub(self, k).val(v), r)
            return r
        return f

    def setnorm(self, sl):
        base, cond, elt = self.unordered(sl)
        return SL("set", base, cond, elt)

    def first(self, sl, P):
        """Base element that is the first one to satisfy P."""
        base = sl.base
        c = b_and(sl.cond, P)
        if base[0] in ("sorted", "rsorted"):
            x = base[1]
            return ("item", (base[0], SL("set", x.base, b_and(x.cond, self.subst_elt(x.elt)(c)), x.elt)), 0)
        return ("first", base, c)

    def ordered(self, sl):
        """The collection with an explicit order, for iteration."""
        if sl.kind == "set":
            return SL("list", ("unordered", self.setnorm(sl)))
        return sl

    def sl_of(self, l):
        if isinstance(l, SL):
            return l
        if isinstance(l, Ref) and isinstance(self.deref(l), SLR):
            return self.deref(l).v
        return None

    def newsl(self, v):
        return self.new(SLR(v, self.g))

    # -- iteration
    def iterate(self, it, bind, body, st, bodyfn=None):
        if not isinstance(it, Node):
            v = self.sl_of(it)
            if v is not None:
                run = bodyfn or (lambda: self.block(body))
                brk = FALSE
                g0, gout = self.g, FALSE
                for l, gl in leaf_gates(v):
                    self.g = b_and(g0, gl)
                    if self.g == FALSE:
                        continue
                    if isinstance(l, SL):
                        brk = b_or(brk, self.iter_sl(self.ordered(l), bind, run, st))
                    else:
                        brk = b_or(brk, super().iterate(l, bind, body, st, bodyfn))
                    gout = b_or(gout, self.g)
                self.g = gout
                return brk
        return super().iterate(it, bind, body, st, bodyfn)

    def iter_sl(self, sl, bind, run_body, st):
        fr = self.frames[-1]
        g0 = self.g
        heap0 = dict(self.heap)
        nid0 = self.nid
        n0 = len(self.pending)
        np0 = len(self.procs)
        ctl = dict(brk=FALSE, cont=FALSE)
        fr.setdefault("ctl", []).append(ctl)
        svret = fr.get("loopret")
        fr["loopret"] = []
        fr["absloop"] += 1
        self.collect.append((nid0, {}))
        cube0, self.cube0 = self.cube0, len(CUBE)
        try:
            self.g = sl.cond
            bind(sl.elt)
            run_body()
            gend = b_or(self.g, ctl["cont"])
        finally:
            fr["absloop"] -= 1
            fr["ctl"].pop()
            rets, fr["loopret"] = fr["loopret"], svret
            log = self.collect.pop()[1]
            self.cube0 = cube0
        if len(self.procs) > np0:
            raise Unsupported(st, "command run in a loop over a computed collection")
        heap1 = self.heap
        self.heap = dict(heap0)
        for k in heap1:
            if k > nid0:
                self.heap[k] = heap1[k]
        self.g = g0
        # exceptions
        raised = self.pending[n0:]
        del self.pending[n0:]
        exg = FALSE
        for ent in raised:
            g = self.exists(SL("list", sl.base), ent[0])
            self.pending.append((b_and(g0, g),) + ent[1:])
            exg = b_or(exg, g)
        brk = ctl["brk"]
        P = brk
        for g, v, n in rets:
            P = b_or(P, g)
        F = None
        if P != FALSE:
            F = self.first(sl, P) if P != TRUE else ("item", sl.base, 0)
            fsub = Sub(self, F)
            PF = fsub.val(P)
        E = self.exists(SL("list", sl.base), P) if P != FALSE else FALSE

        def at_first(v):
            """Value v of the exit iteration, at the element that exits."""
            return under(PF, fsub.val(v))

        # variables
        for k, r0 in heap0.items():
            r1 = heap1[k]
            if r1 is r0:
                continue
            if isinstance(r0, EnvR):
                for n, v1 in r1.vars.items():
                    v0 = r0.vars.get(n, MISSING)
                    if v1 == v0:
                        continue
                    nonexit = ite(b_and(sl.cond, b_not(P)), v1, v0)
                    after = BOT
                    if P != FALSE:
                        fv = self.freeze(at_first(under(P, v1)), F, PF)
                        after = ite(E, fv, after)
                    if nonexit == v0:
                        rest = v0
                    else:
                        rest = ite(self.nonempty(sl.base), Unk("value of %s after the loop (%s)" % (n, where(st))), v0)
                    v = ite(E, after, rest) if P != FALSE else rest
                    self.heap[k] = self.heap[k].with_(n, ite(self.rel(r0.birth), v, v0))
            elif k in log:
                continue
            else:
                raise Unsupported(st, "object changed in a loop over a computed collection")
        for k, adds in log.items():
            r0 = heap0[k]
            empty = isinstance(r0, ListR) and not r0.segs or isinstance(r0, SLR) and r0.v == EMPTY_SET
            if not empty or len(adds) != 1 or P != FALSE:
                raise Unsupported(st, "accumulation in a loop over a computed collection")
            g, v = adds[0]
            kind = "set" if isinstance(r0, SLR) else "list"
            new = SL(kind, sl.base, g, v)
            if kind == "set":
                new = self.setnorm(new)
            self.heap[k] = SLR(new, r0.birth, r0.shared)
        # return
        for g, v, n in rets:
            gg = b_and(g0, b_and(E, at_first(g) if g != P else TRUE))
            if isinstance(gg, Bot) or gg == FALSE:
                continue
            val = self.freeze(at_first(under(g, v)), F, PF)
            sv = self.g
            if fr["absloop"]:
                fr["loopret"].append((gg, val, n))
            else:
                fr["ret"] = ite(gg, val, fr["ret"])
                fr["retg"] = b_or(fr["retg"], gg)
            self.g = sv
        rg = FALSE
        for g, v, n in rets:
            x = at_first(g) if g != P else TRUE
            rg = b_or(rg, x if not isinstance(x, Bot) else FALSE)
        out = b_and(E, rg) if rets else FALSE
        bg = FALSE
        if brk != FALSE:
            x = at_first(brk) if brk != P else TRUE
            bg = b_and(E, x if not isinstance(x, Bot) else FALSE)
        self.g = b_and(g0, b_not(b_or(out, exg)))
        return b_and(g0, bg)

    def freeze(self, v, F, PF):
        """Objects built in the exit iteration, with the bound variable replaced."""
        s = Sub(self, F)
        if isinstance(v, Node):
            return ite(Node(v.atom, TRUE, FALSE), self.freeze(v.hi, F, PF), self.freeze(v.lo, F, PF))
        if isinstance(v, Ref):
            r = self.heap.get(v.id)
            if isinstance(r, DictR) and r.ext is None:
                items = {k: self.freeze(under(PF, s.val(x)), F, PF) for k, x in r.items.items()}
                if items == r.items:
                    return v
                return self.new(DictR(items, self.g, r.shared))
        if isinstance(v, Tup):
            return Tup([self.freeze(x, F, PF) for x in v.xs], v.names)
        return v

    def rel(self, birth):
        if birth == TRUE:
            return self.g
        if ite(birth, self.g, TRUE) == TRUE:
            return TRUE
        # an object built inside the current loop body is born under the same gate
        return self.g

    def list_append(self, ref, v, node, front=False):
        if self.outer(ref):
            self.collect[-1][1].setdefault(ref.id, []).append((self.g, v))
            return
        super().list_append(ref, v, node, front)

    def outer(self, ref):
        return bool(self.collect) and ref.id <= self.collect[-1][0]

    # -- comprehensions
    def comp_sl(self, e, kind):
        if len(e.generators) != 1:
            return None
        gen = e.generators[0]
        src = self.eval(gen.iter)
        ls = [l for l in leaves(src)]
        if not any(self.sl_of(l) is not None for l in ls):
            return None
        fr = self.frames[-1]

        def one(l):
            v = self.sl_of(l)
            if v is None:
                return Unk("comprehension over %r" % (l,))
            return self.ap(lambda s: self.comp_one(e, gen, s, kind, fr) if isinstance(s, SL) else s, v)

        v = self.ap(one, src)
        return self.newsl(v)

    def comp_one(self, e, gen, sl, kind, fr):
        sl = self.ordered(sl) if kind == "list" else sl
        eid = self.new(EnvR({}, fr["env"], self.g)).id
        sub = dict(fr)
        sub.update(env=eid, absloop=0, ctl=[], loopret=[], ret=BOT, retg=FALSE)
        self.frames.append(sub)
        n0 = len(self.pending)
        sv, cube0 = self.g, self.cube0
        self.cube0 = len(CUBE)
        try:
            self.g = sl.cond
            self.assign(gen.target, sl.elt)
            for c in gen.ifs:
                self.g = b_and(self.g, self.truth(self.eval(c)))
            g = self.g
            v = self.eval(e.elt) if g != FALSE else BOT
        finally:
            self.frames.pop()
            self.g, self.cube0 = sv, cube0
        raised = self.pending[n0:]
        del self.pending[n0:]
        gg = b_and(sv, cube_guard(self.cube0)) if CUBE[self.cube0:] else sv
        for ent in raised:
            x = self.exists(SL("list", sl.base), ent[0])
            self.pending.append((b_and(gg, x),) + ent[1:])
            self._cut = b_or(self._cut, b_and(gg, x))
        r = SL(kind, sl.base, g, v)
        return self.setnorm(r) if kind == "set" else r

    def e_ListComp(self, e):
        return self.comp_sl(e, "list") or super().e_ListComp(e)

    def e_GeneratorExp(self, e):
        return self.comp_sl(e, "list") or super().e_GeneratorExp(e)

    def e_SetComp(self, e):
        r = self.comp_sl(e, "set")
        if r is None:
            r = self.const_set(self.comp(e, "list"))
        return r if r is not None else super().e_SetComp(e)

    def const_set(self, v):
        """Set of known constants, kept as a list without duplicates."""
        r = self.heap.get(v.id) if isinstance(v, Ref) else None
        if not isinstance(r, ListR) or not all(s[0] == "one" and isinstance(s[1], C) for s in r.segs):
            return None
        xs = sorted({s[1] for s in r.segs}, key=repr)
        return self.new(ListR(tuple(("one", x) for x in xs), self.g, False, "set"))

    def static_items(self, v):
        if isinstance(v, Ref):
            r = self.deref(v)
            if isinstance(r, ListR) and r.kind == "set" and len(r.segs) > 1:
                return None
        return super().static_items(v)

    def e_DictComp(self, e):
        if len(e.generators) == 1:
            gen = e.generators[0]
            src = self.eval(gen.iter)
            if isinstance(src, Op) and src.t[0] == "envitems":
                fr = self.frames[-1]
                eid = self.new(EnvR({}, fr["env"], self.g)).id
                sub = dict(fr)
                sub.update(env=eid)
                self.frames.append(sub)
                try:
                    base = self.deref(Ref(src.t[1]))
                    key = C("GIT_DIR")
                    self.assign(gen.target, Tup([key, StrL((("envval", "GIT_DIR"),))]))
                    keep = TRUE
                    for c in gen.ifs:
                        keep = b_and(keep, self.truth(self.eval(c)))
                    k, v = self.eval(e.key), self.eval(e.value)
                finally:
                    self.frames.pop()
                if k != key:
                    raise Unsupported(e, "environment rebuilt with other names")
                old = base.items.get(key, MISSING)
                return self.new(DictR({key: ite(keep, old, REMOVED)}, self.g, False, ("environ",)))
        return super().e_DictComp(e)

    # -- dictionaries
    def setitem_leaf(self, l, i, v, node, whole):
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, DictR):
                if r.ext == ("environ",):
                    self.env_changed(r, "[...] =", node)
                    if i == C("GIT_DIR"):
                        self.heap[l.id] = DictR({**r.items, i: ite(self.rel(r.birth), v, r.items.get(i, MISSING))}, r.birth, r.shared, r.ext)
                    return
                k = self.const_key(i)
                if k is not None:
                    if self.outer(l):
                        raise Unsupported(node, "dictionary filled in a loop over a computed collection")
                    d = dict(r.items)
                    d[k] = ite(self.rel(r.birth), v, d.get(k, MISSING))
                    self.heap[l.id] = DictR(d, r.birth, r.shared, r.ext)
                    return
        if isinstance(l, Op):
            return
        super().setitem_leaf(l, i, v, node, whole)

    def env_changed(self, r, how, node):
        """A store into os.environ itself (not a copy) changes the state of the process."""
        if r.shared:
            self.effects.append((self.g, "os.environ." + how, node))

    def dict_pop(self, ref, key, default, node):
        r = self.deref(ref)
        if r.ext == ("environ",):
            self.env_changed(r, "pop", node)
            k = key if isinstance(key, C) else None
            if k is None:
                raise Unsupported(node, "environment entry with computed name")
            if k != C("GIT_DIR"):
                return StrL((("envval", k.v),))
            old = r.items.get(k, MISSING)
            if default is None:
                self.ap(lambda o, p: self.exc("KeyError", "GIT_DIR", node) if o == REMOVED or isinstance(o, Missing) and p == FALSE else o, old, self.A("inenv", "GIT_DIR"))
            self.heap[ref.id] = DictR({**r.items, k: ite(self.rel(r.birth), REMOVED, old)}, r.birth, r.shared, r.ext)
            return StrL((("envval", "GIT_DIR"),))
        k = self.const_key(key)
        if k is None:
            raise Unsupported(node, "pop with computed key")
        old = r.items.get(k, MISSING)
        res = self.ap(lambda o: (self.exc("KeyError", repr(k), node) if default is None else default) if isinstance(o, Missing) else o, old)
        d = dict(r.items)
        d[k] = ite(self.rel(r.birth), MISSING, old)
        self.heap[ref.id] = DictR(d, r.birth, r.shared, r.ext)
        return res

    # -- subscripts
    def getitem_leaf(self, l, i, node):
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, SLR):
                return self.ap(lambda s: self.sl_item(s, i, node), r.v)
            if isinstance(r, DictR):
                if r.ext == ("environ",):
                    if isinstance(i, C) and i.v == "GIT_DIR":
                        return self.ap(lambda o: o if not isinstance(o, Missing) else StrL((("envval", "GIT_DIR"),)), r.items.get(i, MISSING))
                    return StrL((("envval", keyof(i)),))
                k = self.const_key(i)
                if k is not None and r.ext is None:
                    if isinstance(k, StrL):
                        return self.unk("dictionary lookup with computed key", node)
                    v = r.items.get(k, MISSING)
                    return self.ap(lambda o: self.exc("KeyError", repr(k), node) if isinstance(o, Missing) else o, v)
        if isinstance(l, SL):
            return self.sl_item(l, i, node)
        if isstr(l):
            return self.str_item(l, i, node)
        if isinstance(l, Op) and l.t[0] == "mo":
            return self.group(l.t, [i], node)
        return super().getitem_leaf(l, i, node)

    def sl_item(self, s, i, node):
        if not isinstance(s, SL):
            return self.getitem_leaf(s, i, node)
        s = self.ordered(s)
        if isinstance(i, SliceL):
            if s.cond == TRUE and i.s in (NONE, None) and isinstance(i.a, IntL) and i.a.a.is_const() and i.b in (NONE, None):
                n = i.a.a.c
                if n == 0:
                    return self.newsl(s)
                return self.newsl(SL("list", ("tail", s.base, n), TRUE, s.elt))
            return self.unk("slice of a computed list", node)
        if not (isinstance(i, IntL) and i.a.is_const()):
            return self.unk("item of a computed list", node)
        n = i.a.c
        ne = self.exists(s, TRUE)
        if n not in (0, -1):
            ne = b_and(ne, self.satom("longer", SL("list", s.base, s.cond), n if n >= 0 else -n - 1))

        def f(c):
            if c == FALSE:
                return self.exc("IndexError", "list index", node)
            if s.cond == TRUE:
                t = ("item", s.base, n)
            elif n == 0:
                t = self.first(s, TRUE)
            else:
                t = ("item", SL("list", s.base, s.cond), n)
            return ite(TRUE, Sub(self, t).val(s.elt), BOT)

        return self.ap(f, ne)

    def str_item(self, l, i, node):
        if isinstance(i, SliceL):
            a, b, st = i.a, i.b, i.s
            if st not in (NONE, None) and st != IntL(1):
                return self.strv(("m", "slice", keyof(l), repr(i)))

            def bound(x):
                if x in (NONE, None):
                    return None
                if isinstance(x, IntL):
                    return x.a.c if x.a.is_const() else x.a
                return x

            a, b = bound(a), bound(b)
            return self.slice_str(l, a, b, node)
        if isinstance(i, IntL) and i.a.is_const():
            if isinstance(l, C):
                try:
                    return C(l.v[i.a.c])
                except IndexError:
                    return self.exc("IndexError", "string index", node)
            n = i.a.c
            if n >= 0 and isinstance(l.fr[0], str) and len(l.fr[0]) > n:
                return C(l.fr[0][n])
            if n in (0, -1):
                return self.ap(lambda c: self.exc("IndexError", "string index", node) if c == FALSE else self.strv(("char", keyof(l), n)), self.truth_leaf(l))
            return self.ap(lambda c: self.exc("IndexError", "string index", node) if c == FALSE else self.strv(("char", keyof(l), n)), self.satom("longer", keyof(l), n if n >= 0 else -n - 1))
        return self.unk("string index", node)

    def slice_str(self, l, a, b, node):
        k = keyof(l)
        if a in (0, None):
            a = None
        # bounds that are positions of something in the string
        if isinstance(b, Aff):
            info = self.idx.get(b.t[0][0]) if len(b.t) == 1 and b.t[0][1] == 1 else None
            if info and info[0] in ("rfind", "rindex") and info[1] == k and b.c == 0 and self.known(A("ends", k, info[2])):
                b = -len(info[2])
            elif info and info[0] == "len" and info[1] == k and b.c < 0:
                b = b.c
            elif info and info[0] == "len" and info[1] == k and b.c == 0:
                b = None
        if isinstance(a, Aff):
            info = self.idx.get(a.t[0][0]) if len(a.t) == 1 and a.t[0][1] == 1 else None
            if info and info[0] == "len" and info[1] == k and a.c < 0:
                a = a.c
        if a is None and b is None:
            return l
        if isinstance(l, C) and isinstance(a, (int, type(None))) and isinstance(b, (int, type(None))):
            return C(l.v[a:b])
        if isinstance(l, StrL) and isinstance(a, int) and a > 0 and b is None and isinstance(l.fr[0], str):
            h = l.fr[0]
            if len(h) >= a:
                return mkstr((h[a:],) + l.fr[1:])
        for x in (a, b):
            if not isinstance(x, (int, type(None), Aff)):
                return self.unk("string slice", node)
        if isinstance(k, tuple) and k[0] == "item" and isinstance(k[1], tuple) and k[1][0] in ("sorted", "rsorted") and b is None and isinstance(a, int) and a > 0:
            # removing a prefix that all elements share keeps their order
            x = k[1][1]
            t = keyof(x.elt) if isinstance(x.elt, StrL) else None
            for at in atoms_of(x.cond):
                if t is not None and at[0] == "starts" and at[1] == t and isinstance(at[2], str) and len(at[2]) == a and b_and(x.cond, A("starts", t, at[2])) == x.cond:
                    return self.strv(("item", (k[1][0], SL("set", x.base, x.cond, self.slice_str(x.elt, a, None, node))), k[2]))
        if isinstance(k, tuple) and k[0] == "slice" and k[3] is None and isinstance(k[2], int) and k[2] >= 0 and b is None and isinstance(a, int) and a > 0:
            return self.strv(("slice", k[1], k[2] + a, None))
        return self.strv(("slice", k, a, b))

    def unpack(self, v, i, n, node):
        def f(l):
            s = self.sl_of(l)
            if s is None:
                return Interp.unpack(self, l, i, n, node)

            def g(x):
                if not isinstance(x, SL):
                    return Interp.unpack(self, x, i, n, node)
                ok = self.satom("haslen", SL("list", x.base, x.cond), n)
                return self.ap(lambda c: self.exc("ValueError", "unpack", node) if c == FALSE else self.strv(("item", x.base, i)) if x.cond == TRUE and x.elt == X else self.unk("unpacking", node), ok)

            return self.ap(g, s)

        if any(self.sl_of(l) is not None for l in leaves(v)):
            return self.ap(f, v)
        return super().unpack(v, i, n, node)

    # -- operators
    def binop(self, op, a, b, node):
        def f(x, y):
            if op == "Add":
                sx, sy = isstr(x), isstr(y)
                if sx != sy and (isinstance(x, (C, IntL, StrL)) and isinstance(y, (C, IntL, StrL))):
                    return self.exc("TypeError", "adding a string to something else", node)
                if isinstance(x, C) and x.v is None or isinstance(y, C) and y.v is None:
                    return self.exc("TypeError", "None + ...", node)
            if op == "Mod" and isinstance(x, C) and isinstance(x.v, str):
                return self.percent(x.v, y, node)
            if op == "Mod" and isinstance(x, StrL):
                return self.unk("formatting with a computed template", node)
            if op == "Div" and isstr(y) and isinstance(x, Op):
                return self.path_join([x, y], node)
            if op in ("Sub", "BitOr", "BitAnd") and (self.sl_of(x) is not None or self.sl_of(y) is not None):
                return self.strv(("m", "set" + op, repr(self.sl_of(x)), repr(self.sl_of(y))))
            return npmodel.binop(self, op, x, y, node)

        return self.ap(f, a, b)

    def percent(self, f, arg, node):
        args = list(arg.xs) if isinstance(arg, Tup) else [arg]
        kinds = [m.group(1) for m in re.finditer(r"%(?:[-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", f) if m.group(1) != "%"]
        if isinstance(arg, Ref) and isinstance(self.deref(arg), DictR):
            return self.unk("formatting from a dictionary", node)
        if len(kinds) != len(args):
            return self.exc("TypeError", "format string and arguments do not match", node)
        for k, v in zip(kinds, args):
            if k in "di":
                def chk(l):
                    if isstr(l) or isinstance(l, C) and l.v is None:
                        return self.exc("TypeError", "%d of something that is not a number", node)
                    return l
                self.ap(chk, v)
        if self.g == FALSE:
            return BOT
        return npmodel.percent(self, f, Tup(args))

    def compare(self, op, a, b, node):
        return self.ap(lambda x, y: self.cmp_leaf(op, x, y, node), a, b)

    def cmp_leaf(self, op, x, y, node):
        pos = op in ("Eq", "Is", "In")
        if op in ("Eq", "NotEq"):
            if isstr(x) and isstr(y):
                if isinstance(x, C) and isinstance(y, C):
                    return C((x.v == y.v) == pos)
                if x == y:
                    return C(pos)
                r = self.satom("eq", keyof(x), keyof(y))
                return r if pos else b_not(r)
            if isstr(x) and isinstance(y, (IntL, C)) or isstr(y) and isinstance(x, (IntL, C)):
                return C(not pos)
            for p, q in ((x, y), (y, x)):
                if isinstance(p, Op) and p.t[0] == "errno" and isinstance(q, Fun) and q.kind == "ext" and q.data == "errno.ENOENT":
                    return self.A("enoent") if pos else b_not(self.A("enoent"))
            if isinstance(x, IntL) and isinstance(y, C) and y.v is None or isinstance(y, IntL) and isinstance(x, C) and x.v is None:
                return C(not pos)
        if op in ("In", "NotIn"):
            r = self.contains(x, y, node)
            if r is not None:
                return r if op == "In" else b_not(r)
        if op in ("Is", "IsNot") and (isstr(x) or isinstance(x, IntL) or isinstance(x, Op) and x.t[0] in ("mo", "popen") or isinstance(x, Ref)) and y == NONE:
            return C(op == "IsNot")
        if op in ("Lt", "Gt", "LtE", "GtE") and (x == NONE or y == NONE):
            return self.exc("TypeError", "ordering with None", node)
        return npmodel.compare(self, op, x, y, node)

    def contains(self, x, y, node):
        if y == NONE:
            return self.exc("TypeError", "argument of type None is not iterable", node)
        if isstr(y):
            if x == NONE or isinstance(x, IntL):
                return self.exc("TypeError", "in <string> requires string", node)
            if isstr(x):
                if isinstance(x, C) and isinstance(y, C):
                    return C(x.v in y.v)
                return self.satom("has", keyof(y), keyof(x))
        s = self.sl_of(y)
        if s is not None:
            def f(l):
                if not isinstance(l, SL):
                    return npmodel.contains(self, x, l, node)
                e = self.ap0(lambda q: self.cmp_leaf("Eq", q, x, node), l.elt)
                return self.exists(l, ite(l.cond, e, FALSE))
            return self.ap(f, s)
        if isinstance(y, Ref) and isinstance(self.deref(y), DictR):
            r = self.deref(y)
            if r.ext == ("environ",):
                if isinstance(x, C) and x.v == "GIT_DIR":
                    return self.ap(lambda o: self.A("inenv", "GIT_DIR") if isinstance(o, Missing) else C(o != REMOVED), r.items.get(x, MISSING))
                return self.A("inenv", keyof(x))
            k = self.const_key(x)
            if r.ext is None and k is not None and not isinstance(k, StrL):
                return self.ap(lambda o: C(not isinstance(o, Missing)), r.items.get(k, MISSING))
        return None

    # -- attributes and calls
    def modattr(self, name, attr):
        if name == "sys" and attr == "platform":
            return C(self.platform)
        if name == "os" and attr == "environ":
            return self.environ
        if name == "os" and attr == "sep":
            return C("\\" if self.platform == "win32" else "/")
        if name == "os" and attr == "name":
            return C("nt" if self.platform == "win32" else "posix")
        return super().modattr(name, attr)

    def attr_leaf(self, l, name, node):
        if isinstance(l, Fun) and l.kind == "ext" and l.data == "os" and name == "environ":
            return self.environ
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, SLR):
                return Fun("slmeth", (name, l))
            if isinstance(r, DictR):
                return Fun("vdmeth", (name, l))
        if isinstance(l, SL):
            return Fun("slmeth", (name, l))
        if isstr(l):
            return Fun("smeth", (name, l))
        if isinstance(l, Op):
            k = l.t[0]
            if k == "exc" and name == "errno":
                return Op(("errno",))
            if k == "popen":
                return self.popen_attr(l, name, node)
            if k == "mo":
                return Fun("mometh", (name, l))
            if k == "pattern":
                return Fun("remeth", (name, l))
            if k == "path":
                return self.path_attr(l, name, node)
        if isinstance(l, IntL):
            return self.exc("AttributeError", name, node)
        return super().attr_leaf(l, name, node)

    def setattr(self, o, name, v, node):
        if isinstance(o, Op):
            return
        super().setattr(o, name, v, node)

    def call_leaf(self, f, args, kw, node):
        if isinstance(f, Fun):
            if f.kind == "smeth":
                nm, l = f.data
                return self.lifted(lambda a, k: self.smeth(nm, l, a, k, node), args, kw)
            if f.kind == "bi" and f.data.startswith(("str.", "bytes.")) and args:
                nm = f.data.split(".", 1)[1]
                return self.lifted(lambda a, k: self.smeth(nm, a[0], a[1:], k, node) if isstr(a[0]) else self.exc("TypeError", nm, node), args, kw)
            if f.kind == "slmeth":
                return self.slmeth(f.data[0], f.data[1], args, kw, node)
            if f.kind == "vdmeth":
                return self.vdmeth(f.data[0], f.data[1], args, kw, node)
            if f.kind == "mometh":
                nm, l = f.data
                if nm == "group":
                    return self.group(l.t, args or [IntL(0)], node)
                if nm == "groups":
                    n = sre.parse(l.t[1]).state.groups - 1
                    return Tup([self.group(l.t, [IntL(i + 1)], node) for i in range(n)])
                return self.unk("match." + nm, node)
            if f.kind == "remeth":
                nm, l = f.data
                return self.recall(nm, [C(l.t[1])] + list(args), kw, node)
            if f.kind == "pathmeth":
                return self.path_call(f.data[0], f.data[1], args, kw, node)
            if f.kind == "popenmeth":
                return self.popen_call(f.data[0], f.data[1], args, kw, node)
            if f.kind == "ext":
                r = self.vext(f.data, args, kw, node)
                if r is not None:
                    return r
            if f.kind == "bi":
                r = self.vbi(f.data, args, kw, node)
                if r is not None:
                    return r
        return super().call_leaf(f, args, kw, node)

    def lifted(self, f, args, kw):
        n = len(args)
        ks = sorted(kw)
        return self.ap(lambda *v: f(list(v[:n]), dict(zip(ks, v[n:]))), *(list(args) + [kw[k] for k in ks]))

    def vdmeth(self, name, ref, args, kw, node):
        r = self.deref(ref)
        env = r.ext == ("environ",)
        if name == "copy":
            return self.new(DictR(dict(r.items), self.g, False, r.ext))
        if name == "pop":
            return self.lifted(lambda a, k: self.dict_pop(ref, a[0], a[1] if len(a) > 1 else None, node), args, kw) if not self.g == FALSE and not any(isinstance(a, Node) for a in args) else self.dict_pop(ref, args[0], args[1] if len(args) > 1 else None, node)
        if name == "get":
            d = args[1] if len(args) > 1 else kw.get("default", NONE)
            if env:
                if args[0] == C("GIT_DIR"):
                    return self.ap(lambda o: ite(self.A("inenv", "GIT_DIR"), StrL((("envval", "GIT_DIR"),)), d) if isinstance(o, Missing) else d if o == REMOVED else o, r.items.get(args[0], MISSING))
                return ite(self.A("inenv", keyof(args[0])), StrL((("envval", keyof(args[0])),)), d)

            def g(k):
                c = self.const_key(k)
                if c is None or isinstance(c, StrL):
                    return self.unk("dict.get", node)
                return self.ap(lambda o: d if isinstance(o, Missing) else o, r.items.get(c, MISSING))
            return self.ap(g, args[0])
        if env:
            if name == "items":
                return Op(("envitems", ref.id))
            if name in ("update", "setdefault"):
                self.env_changed(r, name, node)
                if name == "setdefault":
                    if args[0] == C("GIT_DIR"):
                        raise Unsupported(node, "environment." + name)
                    return StrL((("envval", keyof(args[0])),))
                new = [(C(k), v) for k, v in kw.items()]
                for a in args:
                    if not (isinstance(a, Ref) and isinstance(self.deref(a), DictR)):
                        raise Unsupported(node, "environment." + name)
                    if self.deref(a).ext == ("environ",) and self.deref(a).items.get(C("GIT_DIR"), MISSING) != MISSING:
                        raise Unsupported(node, "environment." + name)
                    new += [(k, v) for k, v in self.deref(a).items.items() if k == C("GIT_DIR") and v != MISSING]
                for k, v in new:
                    if k == C("GIT_DIR"):
                        r = self.deref(ref)
                        self.heap[ref.id] = DictR({**r.items, k: ite(self.rel(r.birth), v, r.items.get(k, MISSING))}, r.birth, r.shared, r.ext)
                return NONE
            raise Unsupported(node, "environment." + name)
        if name == "update":
            d = dict(r.items)
            new = {C(k): v for k, v in kw.items()}
            if args:
                if isinstance(args[0], Ref) and isinstance(self.deref(args[0]), DictR) and self.deref(args[0]).ext is None:
                    new.update(self.deref(args[0]).items)
                else:
                    raise Unsupported(node, "dict.update")
            for k, v in new.items():
                d[k] = ite(self.rel(r.birth), v, d.get(k, MISSING))
            self.heap[ref.id] = DictR(d, r.birth, r.shared, r.ext)
            return NONE
        if name == "setdefault":
            k = self.const_key(args[0])
            old = r.items.get(k, MISSING)
            v = self.ap0(lambda o: (args[1] if len(args) > 1 else NONE) if isinstance(o, Missing) else o, old)
            self.heap[ref.id] = DictR({**r.items, k: ite(self.rel(r.birth), v, old)}, r.birth, r.shared, r.ext)
            return v
        return npmodel.dmeth(self, name, ref, args, kw, node)

    def slmeth(self, name, l, args, kw, node):
        s = self.sl_of(l)
        if name in ("pop", "append", "add", "sort", "remove", "discard", "reverse", "insert", "extend", "clear", "update"):
            r = self.deref(l) if isinstance(l, Ref) else None
            if r is None:
                raise Unsupported(node, "collection method " + name)
            if self.outer(l) and name in ("append", "add"):
                self.collect[-1][1].setdefault(l.id, []).append((self.g, args[0]))
                return NONE
            if name == "pop" and args == [IntL(0)]:
                item = self.ap(lambda x: self.sl_item(x, IntL(0), node), s)

                def tail(x):
                    if isinstance(x, SL) and x.cond == TRUE and x.kind == "list":
                        return SL("list", ("tail", x.base, 1), TRUE, x.elt)
                    return Unk("pop of a filtered list")
                self.heap[l.id] = SLR(ite(self.rel(r.birth), self.ap0(tail, s), s), r.birth, r.shared)
                return item
            if name == "sort":
                new = self.ap0(lambda x: self.sorted(x, kw.get("reverse", FALSE)), s)
                self.heap[l.id] = SLR(ite(self.rel(r.birth), new, s), r.birth, r.shared)
                return NONE
            raise Unsupported(node, "collection method " + name)
        if name == "copy":
            return self.newsl(s)
        return self.unk("collection method " + name, node)

    def sorted(self, x, rev):
        if rev not in (TRUE, FALSE):
            return Unk("sorted with reverse=%r" % (rev,))
        return SL("list", ("rsorted" if rev == TRUE else "sorted", self.setnorm(x)))

    # -- strings
    def smeth(self, name, l, args, kw, node):
        if name in ("decode", "encode"):
            err = kw.get("errors", args[1] if len(args) > 1 else None)
            k = keyof(l)
            raw = any_out(k)
            if name == "decode" and raw and (err is None or err == C("strict")):
                return self.ap(lambda c: self.exc("UnicodeDecodeError", "output that is not UTF-8", node) if c == TRUE else l, self.A("undecodable"))
            return l
        if l == NONE:
            return self.exc("AttributeError", name, node)
        for a in args:
            if a == NONE and name in ("startswith", "endswith", "replace", "join", "index", "rindex", "find", "count", "removeprefix", "removesuffix"):
                return self.exc("TypeError", name + "(None)", node)
            if isinstance(a, Unk):
                return a
        if name == "join":
            v = args[0]
            s = self.sl_of(v)
            if s is not None:
                return self.ap(lambda x: self.strv(("join", keyof(l), self.ordered(x))) if isinstance(x, SL) else self.unk("join", node), s)
            if isinstance(v, StrL) or isinstance(v, Unk):
                return self.strv(("m", "join", keyof(l), keyof(v)))
            return npmodel.smeth(self, name, l, args, kw, node)
        if name == "format":
            return npmodel.smeth(self, name, l, args, kw, node)
        const = isinstance(l, C) and all(isinstance(a, C) or isinstance(a, IntL) and a.a.is_const() for a in args)
        if const:
            if kw:
                return self.unk("string method with keywords", node)
            try:
                r = getattr(l.v, name)(*[a.v if isinstance(a, C) else a.a.c for a in args])
            except AttributeError:
                return self.exc("AttributeError", name, node)
            except Exception as e:
                return self.exc(type(e).__name__, name, node)
            return self.lit(r)
        k = keyof(l)
        a0 = keyof(args[0]) if args and isstr(args[0]) else None
        if name in ("startswith", "endswith") and args:
            kind = name[:-4] + "s" if False else {"startswith": "starts", "endswith": "ends"}[name]
            if isinstance(args[0], Tup):
                r = FALSE
                for x in args[0].xs:
                    r = b_or(r, self.ap0(lambda q: self.satom(kind, k, keyof(q)), x))
                return r
            if len(args) > 1:
                return Op(("m", name, k) + tuple(npmodel.keyof(a) for a in args))
            return self.satom(kind, k, a0)
        if name in ("strip", "lstrip", "rstrip"):
            return self.strv(self.strip(name, k, a0))
        if name == "removeprefix" and a0 is not None:
            return ite(self.satom("starts", k, a0), self.slice_str(l, len(a0), None, node) if isinstance(a0, str) else self.unk("removeprefix", node), l)
        if name == "removesuffix" and a0 is not None:
            return ite(self.satom("ends", k, a0), self.slice_str(l, None, -len(a0), node) if isinstance(a0, str) and a0 else self.unk("removesuffix", node), l)
        if name in ("split", "rsplit"):
            mx = args[1] if len(args) > 1 else kw.get("maxsplit")
            sep = args[0] if args else kw.get("sep", NONE)
            m = mx.a.c if isinstance(mx, IntL) and mx.a.is_const() else None
            sk = keyof(sep) if isstr(sep) else None
            base = ("split", k, sk) if m in (None, -1) else (name, k, sk, m)
            return self.newsl(SL("list", base))
        if name == "splitlines":
            return self.newsl(SL("list", ("lines", k)))
        if name in ("partition", "rpartition"):
            return Tup([self.strv((name, k, a0, i)) for i in range(3)])
        if name in ("find", "rfind", "index", "rindex") and a0 is not None:
            s = "%s:%r:%r" % (name, k, a0)
            self.idx[s] = (name, k, a0)
            has = self.satom("has", k, a0)
            RANGES.setdefault(s, (Aff(0), None))
            if name in ("index", "rindex"):
                return self.ap(lambda c: self.exc("ValueError", "substring not found", node) if c == FALSE else IntL(sym(s)), has)
            return self.ap(lambda c: IntL(-1) if c == FALSE else IntL(sym(s)), has)
        if name == "count":
            s = "count:%r:%r" % (k, a0)
            self.idx[s] = ("count", k, a0)
            RANGES.setdefault(s, (Aff(0), None))
            return self.ap(lambda c: IntL(0) if c == FALSE else IntL(sym(s)), self.satom("has", k, a0))
        if name == "replace":
            n = args[2] if len(args) > 2 else kw.get("count")
            n = n.a.c if isinstance(n, IntL) and n.a.is_const() else None if n is None else repr(n)
            return self.strv(("replace", k, a0, keyof(args[1]), n))
        if name in ("isdigit", "isdecimal", "isnumeric", "isalpha", "isalnum", "isspace", "islower", "isupper", "isidentifier"):
            return A("m", name, k)
        if name in ("lower", "upper", "title", "capitalize", "casefold", "zfill", "ljust", "rjust", "center", "expandtabs", "swapcase", "translate"):
            return self.strv(("m", name, k) + tuple(npmodel.keyof(a) for a in args))
        return self.exc("AttributeError", name, node)

    def strip(self, name, k, chars):
        if isinstance(k, tuple) and k[0] in ("strip", "lstrip", "rstrip") and k[2] == chars and (k[0] == "strip" or k[0] == name):
            return k
        if name == "strip" and isinstance(k, tuple) and k[0] in ("lstrip", "rstrip") and k[2] == chars:
            return ("strip", k[1], chars)
        if name == "rstrip" and isinstance(k, tuple) and k[0] == "lstrip" and k[2] == chars or name == "lstrip" and isinstance(k, tuple) and k[0] == "rstrip" and k[2] == chars:
            return ("strip", k[1], chars)
        if chars is None and isinstance(k, tuple) and k[0] == "item" and isinstance(k[1], tuple) and k[1][0] == "split" and k[1][2] is None:
            return k
        return (name, k, chars)

    def lit(self, r):
        if isinstance(r, (bool, str)):
            return C(r)
        if isinstance(r, int):
            return IntL(r)
        if isinstance(r, tuple):
            return Tup([self.lit(x) for x in r])
        if isinstance(r, list):
            return self.new(ListR([("one", self.lit(x)) for x in r], self.g))
        if isinstance(r, bytes):
            return C(r.decode())
        return Unk("constant %r" % (r,))

    # -- regular expressions
    def recall(self, fn, args, kw, node):
        def go(a, k):
            if not (isinstance(a[0], C) and isinstance(a[0].v, str)):
                if isinstance(a[0], Op) and a[0].t[0] == "pattern":
                    a[0] = C(a[0].t[1])
                else:
                    return self.unk("computed pattern", node)
            p = a[0].v
            if len(a) > 2 or k:
                return self.unk("pattern flags", node)
            if fn == "compile":
                return Op(("pattern", p))
            if fn == "escape":
                return C(re.escape(p))
            if fn in ("search", "match", "fullmatch"):
                s = a[1]
                if not isstr(s):
                    return self.exc("TypeError", "pattern applied to %r" % (s,), node)
                cp, mode = canon_pattern(p, fn)
                t = keyof(s)
                c = self.matches(s, cp, mode, node)
                return ite(c, Op(("mo", cp, mode, t)), NONE)
            if fn == "split":
                return self.newsl(SL("list", ("resplit", keyof(a[1]), p)))
            if fn in ("findall", "finditer"):
                return self.newsl(SL("list", (fn, keyof(a[1]), p)))
            return self.strv(("re." + fn,) + tuple(keyof(x) for x in a))

        return self.lifted(go, args, kw)

    def matches(self, s, cp, mode, node):
        """Whether the pattern matches; a literal prefix is tested on its own."""
        t = keyof(s)
        if mode == "match":
            try:
                data = list(sre.parse(cp))
            except Exception:
                data = []
            n, txt, src = 0, "", cp
            while len(data) > n + 1 and str(data[n][0]) == "LITERAL" and "|" not in cp:
                c = chr(data[n][1])
                esc = src.startswith("\\")
                if not src[esc:].startswith(c):
                    break
                txt, src, n = txt + c, src[1 + esc:], n + 1
            if txt and src:
                c = self.satom("starts", t, txt)
                rest = self.slice_str(s, len(txt), None, node)
                return b_and(c, self.ap0(lambda l: self.satom("match", keyof(l), src, "match") if isstr(l) else A("unk", "slice"), rest))
        return self.satom("match", t, cp, mode)

    def group(self, t, args, node):
        def one(i):
            if isinstance(i, IntL) and i.a.is_const():
                n = i.a.c
            elif isinstance(i, C) and isinstance(i.v, str):
                return self.unk("named group", node)
            else:
                return self.unk("group", node)
            gi = group_info(t[1], n) if n else (True, 0, False)
            if gi is None:
                return self.exc("IndexError", "no such group", node)
            if isinstance(t[3], str):
                return C(getattr(re, t[2])(t[1], t[3]).group(n))
            v = StrL((("group", t[1], t[2], t[3], n),))
            if not gi[0]:
                return ite(A("took-part", t[1], t[3], n), v, NONE)
            return v

        r = [self.ap(one, a) for a in args]
        return r[0] if len(r) == 1 else Tup(r)

    # -- builtins
    def vbi(self, n, args, kw, node):
        if n == "int" and len(args) == 1:
            def f(l):
                if isinstance(l, StrL):
                    k = keyof(l)
                    s = "int:%r" % (k,)
                    self.idx[s] = ("int", k, None)
                    RANGES.setdefault(s, (Aff(0), None))
                    if isinstance(k, tuple) and k[0] == "group":
                        gi = group_info(k[1], k[4])
                        if gi and gi[1] > 0 and gi[2]:
                            return IntL(sym(s))
                    return self.ap(lambda c: self.exc("ValueError", "int() of something that is not a number", node) if c == FALSE else IntL(sym(s)), A("m", "isint", k))
                if l == NONE:
                    return self.exc("TypeError", "int(None)", node)
                if isinstance(l, C) and isinstance(l.v, str):
                    try:
                        return IntL(int(l.v))
                    except ValueError:
                        return self.exc("ValueError", "int(%r)" % l.v, node)
                return None
            if any(isstr(l) or l == NONE for l in leaves(args[0])):
                return self.ap(lambda l: f(l) or npmodel.bi_call(self, "int", [l], kw, node), args[0])
        if n == "len" and len(args) == 1:
            def g(l):
                s = self.sl_of(l)
                if s is not None:
                    def h(x):
                        if not isinstance(x, SL):
                            return npmodel.bi_call(self, "len", [x], kw, node)
                        nm = "len:%r" % (SL("list" if x.kind == "list" else "set", x.base, x.cond, TRUE if x.kind == "list" else x.elt),)
                        self.idx[nm] = ("len", x.base, x.cond)
                        RANGES.setdefault(nm, (Aff(0), None))
                        return IntL(sym(nm))
                    return self.ap(h, s)
                if isinstance(l, C) and isinstance(l.v, str):
                    return IntL(len(l.v))
                if isinstance(l, StrL):
                    nm = "len:%r" % (keyof(l),)
                    self.idx[nm] = ("len", keyof(l), None)
                    RANGES.setdefault(nm, (Aff(0), None))
                    return IntL(sym(nm))
                if l == NONE:
                    return self.exc("TypeError", "len(None)", node)
                return npmodel.bi_call(self, "len", [l], kw, node)
            return self.ap(g, args[0])
        if n == "str" and len(args) >= 1:
            return self.ap(lambda l: l if isstr(l) else Op(("str",) + (repr(l)[:80],)) if isinstance(l, (Ref, Op)) else npmodel.bi_call(self, "str", [l], {}, node), args[0])
        if n == "bool" and args:
            return self.truth(args[0])
        if n in ("set", "frozenset"):
            if not args:
                return self.newsl(EMPTY_SET)
            if any(self.sl_of(l) is not None for l in leaves(args[0])):
                return self.newsl(self.ap(lambda l: self.ap(lambda x: self.setnorm(x) if isinstance(x, SL) else x, self.sl_of(l)), args[0]))
        if n in ("list", "tuple", "iter") and args and any(self.sl_of(l) is not None for l in leaves(args[0])):
            return self.newsl(self.ap(lambda l: self.ap(lambda x: self.ordered(x) if isinstance(x, SL) else x, self.sl_of(l)), args[0]))
        if n == "sorted" and args and any(self.sl_of(l) is not None for l in leaves(args[0])):
            if "key" in kw and kw["key"] != NONE:
                kf = kw["key"]
                name = "len" if isinstance(kf, Fun) and kf.kind == "bi" and kf.data == "len" else repr(kf)
                rv = kw.get("reverse", FALSE)
                if rv not in (TRUE, FALSE):
                    return self.unk("sorted with computed order", node)
                return self.newsl(self.ap(lambda l: self.ap(lambda x: SL("list", ("sortedby", name, rv == TRUE, x)) if isinstance(x, SL) else x, self.sl_of(l)), args[0]))
            rev = kw.get("reverse", FALSE)
            return self.newsl(self.ap(lambda l: self.ap(lambda x: self.sorted(x, rev) if isinstance(x, SL) else x, self.sl_of(l)), args[0]))
        if n == "sorted" and len(args) == 1 and not kw and isinstance(args[0], Ref):
            r = self.deref(args[0])
            if isinstance(r, ListR) and all(s[0] == "one" and isinstance(s[1], C) and isinstance(s[1].v, str) for s in r.segs):
                return self.new(ListR(tuple(sorted(r.segs, key=lambda s: s[1].v)), self.g))
        if n in ("min", "max") and len(args) == 1 and any(self.sl_of(l) is not None for l in leaves(args[0])):
            d = kw.get("default")
            if "key" in kw:
                return self.unk(n + " with key", node)

            def mm(x):
                s = self.sorted(x, C(n == "max"))
                ne = self.exists(s, TRUE)
                return self.ap(lambda c: (self.exc("ValueError", n + " of empty", node) if d is None else d) if c == FALSE else self.sl_item(s, IntL(0), node), ne)
            return self.ap(lambda l: self.ap(lambda x: mm(x) if isinstance(x, SL) else Unk("min"), self.sl_of(l)), args[0])
        if n == "next" and args and any(self.sl_of(l) is not None for l in leaves(args[0])):
            d = args[1] if len(args) > 1 else None

            def nx(x):
                x = self.ordered(x)
                ne = self.exists(x, TRUE)
                return self.ap(lambda c: (self.exc("StopIteration", "next", node) if d is None else d) if c == FALSE else self.sl_item(x, IntL(0), node), ne)
            return self.ap(lambda l: self.ap(lambda x: nx(x) if isinstance(x, SL) else Unk("next"), self.sl_of(l)), args[0])
        if n in ("any", "all") and args and any(isinstance(l, Ref) and isinstance(self.deref(l), SLR) for l in leaves(args[0])):
            def q(x):
                if not isinstance(x, SL):
                    return Unk(n)
                t = self.ap0(self.truth_leaf, x.elt)
                y = SL("list", x.base, x.cond)
                return self.exists(y, t) if n == "any" else b_not(self.exists(y, b_not(t)))
            return self.ap(lambda l: self.ap(q, self.sl_of(l)), args[0])
        if n == "filter" and len(args) == 2 and any(self.sl_of(l) is not None for l in leaves(args[1])):
            raise Unsupported(node, "filter")
        if n == "dict" and len(args) == 1 and not kw and isinstance(args[0], Ref) and isinstance(self.deref(args[0]), DictR):
            r = self.deref(args[0])
            return self.new(DictR(dict(r.items), self.g, False, r.ext))
        if n == "isinstance" and len(args) == 2 and isinstance(args[1], Fun) and args[1].data == "str":
            return self.ap(lambda l: C(isstr(l)) if not isinstance(l, Unk) else A("unk", l.why), args[0])
        if n == "open":
            mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
            self.opens.append((self.g, mode, node))
            return Op(("openfile", self.nid))
        if n in ("eval", "exec", "__import__", "input"):
            self.effects.append((self.g, n, node))
        if n == "print":
            return NONE
        return None

    def setnorm_any(self, v):
        for l in leaves(v):
            s = self.sl_of(l)
            if isinstance(s, SL):
                return self.setnorm(s)
        return Unk("sorted")

    # -- operating system
    def path_t(self, l):
        if isinstance(l, Op) and l.t[0] == "path":
            return l.t[1]
        return keyof(l)

    def path_attr(self, l, name, node):
        t = l.t[1]
        if name == "parent":
            return Op(("path", ("dirname", t)))
        if name == "name":
            return self.strv(("basename", t))
        if name == "parents":
            return Op(("parents", t))
        return Fun("pathmeth", (name, l))

    def path_call(self, name, l, args, kw, node):
        if name in ("resolve", "absolute"):
            return Op(("path", ("realpath", l.t[1])))
        if name in ("__str__", "as_posix", "__fspath__"):
            return self.strv(l.t[1])
        if name in ("exists", "is_dir", "is_file"):
            return A("m", name, l.t[1])
        if name in ("read_text", "read_bytes"):
            return self.exc("OSError", "read", node)
        self.effects.append((self.g, "Path." + name, node))
        return self.unk("Path." + name, node)

    def path_join(self, args, node):
        return Op(("path", ("joinpath",) + tuple(self.path_t(a) for a in args)))

    def vext(self, name, args, kw, node):
        root, _, fn = name.partition(".")
        if name in ("os.path.realpath", "os.path.abspath", "os.path.dirname", "os.path.basename", "os.path.normpath"):
            f = name.rsplit(".", 1)[1]
            return self.lifted(lambda a, k: self.strv((f, self.path_t(a[0]))) if not (isinstance(a[0], C) and a[0].v is None) else self.exc("TypeError", name, node), args, {})
        if name == "os.path.join":
            return self.lifted(lambda a, k: self.strv(("joinpath",) + tuple(self.path_t(x) for x in a)), args, {})
        if name == "os.path.split":
            return self.lifted(lambda a, k: Tup([self.strv(("dirname", self.path_t(a[0]))), self.strv(("basename", self.path_t(a[0])))]), args, {})
        if name in ("os.path.exists", "os.path.isdir", "os.path.isfile", "os.path.islink"):
            return self.lifted(lambda a, k: A("m", name, self.path_t(a[0])), args, {})
        if name in ("os.fspath", "os.fsdecode"):
            return self.lifted(lambda a, k: self.strv(self.path_t(a[0])), args, {})
        if name == "pathlib.Path":
            return self.lifted(lambda a, k: Op(("path", self.path_t(a[0]))), args, {})
        if name == "os.getenv":
            return self.vdmeth("get", self.environ, args, kw, node)
        if name == "os.getcwd":
            return self.strv(("cwd",))
        if root == "re":
            return self.recall(fn, args, kw, node)
        if name in ("subprocess.Popen", "subprocess.run", "subprocess.check_output", "subprocess.call", "subprocess.check_call"):
            return self.spawn(fn, args, kw, node)
        if name in ("subprocess.STARTUPINFO",):
            return Op(("startupinfo",))
        if name == "functools.partial" and isinstance(args[0], Node):
            raise Unsupported(node, "partial of a gated callable")
        if name == "functools.partial":
            return None
        if root in ("subprocess", "os", "shutil", "tempfile", "socket", "multiprocessing", "ctypes", "signal", "pathlib", "io", "urllib", "http", "asyncio"):
            self.effects.append((self.g, name, node))
            return self.unk("call of " + name, node)
        return None

    def spawn(self, fn, args, kw, node):
        cmd = args[0] if args else kw.get("args")
        shell = kw.get("shell", FALSE)
        res, gout = BOT, FALSE
        g0 = self.g
        for l, gl in leaf_gates(cmd):
            self.g = b_and(g0, gl)
            if self.g == FALSE:
                continue
            r = self.spawn_one(fn, l, shell, args, kw, node)
            res = ite(self.g, r, res)
            gout = b_or(gout, self.g)
        self.g = gout
        return res

    def env_of(self, v):
        """GIT_DIR entry of the environment a child process gets (gated): REMOVED, MISSING (as inherited) or a value."""
        def f(l):
            if l == NONE:
                l = self.environ
            r = self.heap.get(l.id) if isinstance(l, Ref) else None
            if isinstance(r, DictR):
                x = r.items.get(C("GIT_DIR"), MISSING)
                if r.ext == ("environ",):
                    return x
                return self.ap0(lambda y: REMOVED if isinstance(y, Missing) else y, x)
            return Unk("environment %r" % (l,))
        return self.ap0(f, v)

    def spawn_one(self, fn, l, shell, args, kw, node):
        if not isinstance(kw.get("env"), _Env):
            kw = dict(kw, env=_Env(self.env_of(kw.get("env", NONE))))
        items = self.static_items(l)
        for i, x in enumerate(items or ()):
            if isinstance(x, Node):
                # a word that depends on the path: one case per value it has here
                r, gout, g0 = BOT, FALSE, self.g
                for y, gy in leaf_gates(x):
                    self.g = b_and(g0, gy)
                    if self.g == FALSE or isinstance(y, Bot):
                        continue
                    v = self.spawn_one(fn, Tup(list(items[:i]) + [y] + list(items[i + 1:])), shell, args, kw, node)
                    r = ite(self.g, v, r)
                    gout = b_or(gout, self.g)
                self.g = gout
                return r
        if isstr(l):
            words = [keyof(l)]
            self.procs.append((self.g, "string", (keyof(l),), kw, shell, node))
            return self.unk("command given as a string", node)
        if items is None or any(not isstr(x) for x in items):
            if items is not None and any(isinstance(x, Node) for x in items):
                raise Unsupported(node, "command with a computed argument")
            self.procs.append((self.g, "unknown", (repr(l)[:80],), kw, shell, node))
            return self.unk("command line", node)
        words = tuple(keyof(x) for x in items)
        self.procs.append((self.g, "list", words, kw, shell, node))
        key = canon_args(words[1:]) if all(isinstance(w, str) for w in words) else words[1:]
        prog = words[0]
        ns = self.A("nostart", prog)

        def start(c, e):
            if c == TRUE:
                return self.exc("FileNotFoundError" if e == TRUE else "PermissionError", "starting %s" % (prog,), node)
            return Op(("popen", key))

        p = self.ap(start, ns, self.A("enoent"))
        if self.g == FALSE:
            return BOT
        out = kw.get("stdout", NONE)
        cap = fn == "check_output" or kw.get("capture_output") == TRUE or out == Fun("ext", "subprocess.PIPE")
        rc = self.rc(key)
        ov = StrL((("out", key),)) if cap else NONE
        text = any(kw.get(t) == TRUE for t in ("text", "universal_newlines")) or "encoding" in kw
        if text and cap and kw.get("errors") in (None, NONE, C("strict")):
            self.ap(lambda c: self.exc("UnicodeDecodeError", "output that is not UTF-8", node) if c == TRUE else NONE, self.A("undecodable"))
        chk = fn in ("check_output", "check_call") or kw.get("check") == TRUE
        if "timeout" in kw and kw["timeout"] != NONE:
            self.ap(lambda c: self.exc("TimeoutExpired", "timeout", node) if c == TRUE else NONE, self.A("timeout", key))
        if chk:
            self.ap(lambda c: self.exc("CalledProcessError", "command failed", node) if c == FALSE else NONE, self.ap(lambda r: atom_v(("eq0", r.a)), rc))
        if fn == "check_output":
            return ov
        if fn in ("call", "check_call"):
            return rc
        if fn == "run":
            return Tup([NONE, rc, ov, NONE], ("args", "returncode", "stdout", "stderr"))
        self.caps[key] = ov
        return p

    def popen_attr(self, l, name, node):
        key = l.t[1]
        if name == "returncode":
            return self.rc(key)
        if name == "stdout":
            return self.caps.get(key, NONE) if False else Op(("pipe", key))
        return Fun("popenmeth", (name, l))

    def popen_call(self, name, l, args, kw, node):
        key = l.t[1]
        if name == "communicate":
            if "timeout" in kw and kw["timeout"] != NONE or args[1:]:
                self.ap(lambda c: self.exc("TimeoutExpired", "timeout", node) if c == TRUE else NONE, self.A("timeout", key))
            return Tup([self.caps[key], NONE])
        if name in ("wait", "poll"):
            return self.rc(key)
        if name in ("kill", "terminate"):
            return NONE
        return self.unk("Popen." + name, node)


def under(c, v):
    """v on the cases of c; the other cases are immaterial (and folded away)."""
    if c == TRUE or isinstance(v, Leaf):
        return v
    if c == FALSE:
        return BOT
    t = min((x.atom for x in (c, v) if isinstance(x, Node)), key=akey)
    h, l = under(cof(c, t, True), cof(v, t, True)), under(cof(c, t, False), cof(v, t, False))
    if c != FALSE and cof(c, t, True) == FALSE:
        h = BOT
    if cof(c, t, False) == FALSE:
        l = BOT
    return mk(t, h, l)


def any_out(k):
    if isinstance(k, tuple):
        return k[0] == "out" or any(any_out(x) for x in k[1:])
    return False


def TRUE_IF(q, base, it):
    if q == FALSE:
        return FALSE
    if q == TRUE:
        return it.nonempty(base)
    return A("exists", base, q)


class _Env:
    """What a child process sees of GIT_DIR (gated)."""

    def __init__(self, v):
        self.v = v


EMPTY_SET = SL("set", ("nothing",), FALSE)


def assigned(st):
    from .interp import assigned_names
    return assigned_names(st)
