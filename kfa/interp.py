"""Predicated forward dataflow over the syntax tree.

Every statement is analysed once per fixpoint round under a gate (a boolean value);
assignments merge through gates, loops are summarised by recurrence equations.  No path is
enumerated and nothing of the analysed program is executed.
"""
import ast
import re
import os

from .loader import where
from .terms import *  # noqa: F401,F403
from .terms import _hoist
from . import npmodel


class Unsupported(Exception):
    def __init__(self, node, why):
        Exception.__init__(self, "%s: %s" % (where(node) if node is not None else "?", why))
        self.node, self.why = node, why


# ---- heap records (immutable; replaced on write) ---------------------------


class EnvR:
    __slots__ = ("vars", "parent", "birth", "decl", "cls")

    def __init__(self, vars, parent, birth, decl=None, cls=None):
        self.vars, self.parent, self.birth, self.decl, self.cls = vars, parent, birth, decl or {}, cls

    def with_(self, name, v):
        d = dict(self.vars)
        d[name] = v
        return EnvR(d, self.parent, self.birth, self.decl, self.cls)


class InstR:
    __slots__ = ("cls", "fields", "birth", "name")

    def __init__(self, cls, fields, birth, name=None):
        self.cls, self.fields, self.birth, self.name = cls, fields, birth, name

    def with_(self, name, v):
        d = dict(self.fields)
        d[name] = v
        return InstR(self.cls, d, self.birth, self.name)


class DictR:
    __slots__ = ("items", "birth", "shared", "ext")

    def __init__(self, items, birth, shared=False, ext=None):
        self.items, self.birth, self.shared, self.ext = items, birth, shared, ext


UNROLL = [False]
"""Analyse a loop over a series of one possible length step by step."""


class ListR:
    """segs: ('one', V) | ('run', n Aff, body V over IOTA) | ('prior', name) | ('alt', guard, segs)"""

    __slots__ = ("segs", "birth", "shared", "kind")

    def __init__(self, segs, birth, shared=False, kind="list"):
        self.segs, self.birth, self.shared, self.kind = tuple(segs), birth, shared, kind


class ArrR:
    __slots__ = ("n", "body", "row", "dt", "birth", "shared", "kind")

    def __init__(self, n, body, row, dt, birth, shared=False, kind="array"):
        self.n, self.body, self.row, self.dt, self.birth, self.shared, self.kind = n, body, row, dt, birth, shared, kind


class IterR:
    __slots__ = ("seq", "pos", "birth")

    def __init__(self, seq, pos, birth):
        self.seq, self.pos, self.birth = seq, pos, birth


class GenR:
    __slots__ = ("fn", "env", "birth", "node")

    def __init__(self, fn, env, birth, node):
        self.fn, self.env, self.birth, self.node = fn, env, birth, node


class FuncInfo:
    def __init__(self, node, env, mod, cls, defaults, kwdefaults, name, isgen):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.defaults, self.kwdefaults, self.name, self.isgen = defaults, kwdefaults, name, isgen
        self.kind = "plain"


class ClassInfo:
    def __init__(self, name, node, bases, env, mod):
        self.name, self.node, self.bases, self.env, self.mod = name, node, bases, env, mod
        self.dataclass = False
        self.namedtuple = None
        self.extbases = []

    def mro(self, classes):
        out = [self]
        for b in self.bases:
            for c in classes[b].mro(classes):
                if c in out:
                    out.remove(c)
                out.append(c)
        return out


class Event:
    __slots__ = ("kind", "guard", "node", "data", "loops", "fn")

    def __init__(self, kind, guard, node, data, loops, fn):
        self.kind, self.guard, self.node, self.data, self.loops, self.fn = kind, guard, node, data, loops, fn

    def __repr__(self):
        return "<%s %s @%s %r>" % (self.kind, self.data, where(self.node) if self.node is not None else "?", self.guard)


class RecDef:
    __slots__ = ("id", "j", "T", "outer", "value", "node", "fn")

    def __init__(self, id, j, T, outer, value, node, fn):
        self.id, self.j, self.T, self.outer, self.value, self.node, self.fn = id, j, T, outer, value, node, fn


MAXDEPTH = 60


class Interp:
    def __init__(self, loader, tag="", cfg=None):
        self.loader = loader
        self.tag = tag
        self.cfg = cfg
        self.heap = {}
        self.nid = 0
        self.tok = 0
        self.jn = 0
        self.g = TRUE
        self.events = []
        self.pending = []
        self.recs = {}
        self.loopT = {}
        self.funcs = {}
        self.classes = {}
        self.modenv = {}
        self.frames = []
        self.loops = []
        self.stores = []
        self.shared = False
        self.cbmodel = {}
        self.cbshape = {}
        self.analysed = set()
        self.handlers = []
        self.yield_cb = []
        self.node = None
        self.tracked = None
        self.hook = {}
        npmodel.CUR = self

    def ndim_sym(self):
        """Dimension whose identity matrix is written I."""
        return sym("n")

    # ---- basics ---------------------------------------------------------
    def new(self, rec):
        self.nid += 1
        self.heap[self.nid] = rec
        return Ref(self.nid)

    def fresh(self, p, shape=None, dt=None):
        self.tok += 1
        own = frozenset() if shape == () else frozenset([("fresh", self.tok)])
        return Num(p, shape, own, dt)

    def ev(self, kind, data=None, node=None):
        g = b_and(self.g, cube_guard(self.cube0)) if CUBE[self.cube0:] else self.g
        if g == FALSE:
            return
        self.events.append(Event(kind, g, node if node is not None else self.node, data, tuple(self.loops), self.frames[-1]["name"] if self.frames else "<module>"))

    cube0 = 0

    def exc(self, etype, why="", node=None, explicit=False):
        """Record an exception under the current gate (and cube) and cut the gate."""
        g = b_and(self.g, cube_guard(self.cube0)) if CUBE[self.cube0:] else self.g
        if g == FALSE:
            return BOT
        self.pending.append((g, etype, node if node is not None else self.node, why, explicit, tuple(self.loops)))
        self._cut = b_or(self._cut, g)
        if not CUBE[self.cube0:]:
            self.g = b_and(self.g, b_not(g))
        return BOT

    _cut = FALSE

    def ap(self, f, *vs):
        """Lift a leaf transfer function under the current gate."""
        save0, savecut = self.cube0, self._cut
        self.cube0, self._cut = len(CUBE), FALSE
        n0, e0 = len(self.pending), len(self.events)
        try:
            r = lift(f, self.g, *vs)
            cut = self._cut
        finally:
            self.cube0, self._cut = save0, savecut
        if CUBE[save0:] and (len(self.pending) > n0 or len(self.events) > e0):
            # what happened inside happened under the conditions of the enclosing lift as well
            cg = cube_guard(save0)
            for lst, k in ((self.pending, n0), (self.events, e0)):
                for i in range(k, len(lst)):
                    x = lst[i]
                    if isinstance(x, tuple):
                        lst[i] = (b_and(cg, x[0]),) + x[1:]
                    else:
                        x.guard = b_and(cg, x.guard)
        if cut != FALSE:
            if CUBE[save0:]:
                cg = cube_guard(save0)
                self._cut = b_or(self._cut, b_and(cg, cut))
            else:
                self.g = b_and(self.g, b_not(cut))
        return r

    def unk(self, why, node=None):
        return Unk("%s (%s)" % (why, where(node if node is not None else self.node)))

    def rel(self, birth):
        """Current gate relative to an object's birth gate."""
        if birth == TRUE:
            return self.g
        if ite(birth, self.g, TRUE) == TRUE:
            return TRUE
        return self.g

    # ---- heap writes ------------------------------------------------------
    def env_set(self, eid, name, v):
        r = self.heap[eid]
        old = r.vars.get(name, BOT)
        self.heap[eid] = r.with_(name, ite(self.rel(r.birth), v, old))

    def deref(self, l):
        return self.heap[l.id]

    # ---- modules ---------------------------------------------------------
    def module(self, name):
        if name in self.modenv:
            return self.modenv[name]
        m = self.loader.load(name)
        if m is None:
            return None
        e = self.new(EnvR({"__name__": C(name), "__file__": Op(("file", name))}, None, TRUE)).id
        self.modenv[name] = e
        sv = (self.g, self.frames, self.shared, self.loops, self.pending, self.cube0)
        self.g, self.frames, self.shared, self.loops, self.pending = TRUE, [], True, [], []
        self.cube0 = len(CUBE)
        self.frames = [dict(env=e, name="<module %s>" % name, ret=BOT, retg=FALSE, mod=m, cls=None, absloop=0, module=True)]
        try:
            for st in m.tree.body:
                self.g = TRUE
                try:
                    self.stmt(st)
                except Unsupported as u:
                    for n in assigned_names(st):
                        self.env_set(e, n, Unk(str(u)))
        finally:
            self.g, self.frames, self.shared, self.loops, self.pending, self.cube0 = sv
        return e

    def modattr(self, name, attr):
        e = self.module(name)
        if e is not None:
            v = self.heap[e].vars.get(attr)
            if v is not None:
                return v
            if self.loader.find(name + "." + attr):
                self.module(name + "." + attr)
                return Fun("mod", name + "." + attr)
            if attr == "__name__":
                return C(name)
            return self.exc("AttributeError", "module %s has no %s" % (name, attr)) or self.unk("missing module attribute " + attr)
        return npmodel.ext_attr(self, name, attr)

    # ---- statements --------------------------------------------------------
    def block(self, body):
        for st in body:
            if self.g == FALSE:
                return
            self.stmt(st)

    def stmt(self, st):
        self.node = st
        f = getattr(self, "s_" + type(st).__name__, None)
        if f is None:
            raise Unsupported(st, "statement " + type(st).__name__)
        try:
            f(st)
        except (TypeError, AttributeError, LookupError, ValueError, AssertionError, ArithmeticError, RecursionError) as e:
            # a construct the engine was not built for: never a claim about the program
            if os.environ.get("KFA_DEBUG"):
                raise
            raise Unsupported(st, "engine: %s: %s" % (type(e).__name__, str(e)[:80]))

    def s_Pass(self, st):
        pass

    def s_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value)

    def s_Import(self, st):
        for a in st.names:
            top_ = a.name if a.asname else a.name.split(".")[0]
            if self.loader.find(a.name):
                self.module(a.name)
            self.setname(a.asname or top_, Fun("mod", npmodel.canon(top_)))

    def s_ImportFrom(self, st):
        base = st.module or ""
        if st.level:
            m = self.frames[-1]["mod"]
            pk = m.name.split(".")
            if not m.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (st.level - 1)]
            base = ".".join(pk + ([st.module] if st.module else []))
        for a in st.names:
            if a.name == "*":
                e = self.module(base)
                if e is None:
                    raise Unsupported(st, "star import")
                for k, v in list(self.heap[e].vars.items()):
                    if not k.startswith("_"):
                        self.setname(k, v)
                continue
            self.setname(a.asname or a.name, self.modattr(npmodel.canon(base), a.name))

    def s_FunctionDef(self, st):
        f = self.mkfunc(st, st.name)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v)
        self.setname(st.name, v)

    def s_AsyncFunctionDef(self, st):
        raise Unsupported(st, "async function")

    def mkfunc(self, node, name):
        args = node.args
        defaults = [self.eval(d) for d in args.defaults]
        kwd = [self.eval(d) if d is not None else None for d in args.kw_defaults]
        fr = self.frames[-1]
        isgen = not isinstance(node, ast.Lambda) and has_yield(node)
        fid = len(self.funcs) + 1
        fi = FuncInfo(node, fr["env"], fr["mod"], fr["cls"], defaults, kwd, name, isgen)
        env = self.heap[fr["env"]]
        if env.cls is not None:
            fi.env = env.parent
            fi.cls = env.cls
        self.funcs[fid] = fi
        return Fun("func", fid)

    def decorate(self, d, v):
        name = dotted(d.func if isinstance(d, ast.Call) else d)
        if name in ("staticmethod", "classmethod", "property", "functools.cached_property", "cached_property"):
            kind = name.split(".")[-1]
            if kind == "cached_property":
                self.ev("memo", name, d)
                kind = "property"
            if isinstance(v, Fun) and v.kind == "func":
                self.funcs[v.data].kind = kind
                return v
        if name and name.split(".")[-1] in ("lru_cache", "cache"):
            self.ev("memo", name, d)
            return v
        if name and name.split(".")[-1] in ("abstractmethod", "wraps", "overload", "override", "final", "njit", "jit"):
            return v
        if name and name.split(".")[-1] in ("setter", "getter"):
            self.funcs[v.data].kind = "setter"
            return v
        f = self.eval(d)
        return self.call(f, [v], {}, d)

    def s_ClassDef(self, st):
        bases, ext = [], []
        for b in st.bases:
            bv = self.eval(b)
            if isinstance(bv, Fun) and bv.kind == "class":
                bases.append(bv.data)
            else:
                ext.append(dotted(b) or "?")
        fr = self.frames[-1]
        cid = len(self.classes) + 1
        ci = ClassInfo(st.name, st, bases, None, fr["mod"])
        ci.extbases = ext
        self.classes[cid] = ci
        eid = self.new(EnvR({}, fr["env"], self.g, None, cid)).id
        ci.env = eid
        sub = dict(fr)
        sub["env"] = eid
        sub["cls"] = cid
        self.frames.append(sub)
        try:
            self.block(st.body)
        finally:
            self.frames.pop()
        ci.fieldnames = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        if any(e.split(".")[-1] == "NamedTuple" for e in ext):
            ci.namedtuple = ci.fieldnames
        for d in st.decorator_list:
            nm = (dotted(d.func if isinstance(d, ast.Call) else d) or "").split(".")[-1]
            if nm == "dataclass":
                ci.dataclass = True
        self.setname(st.name, Fun("class", cid))

    def s_Global(self, st):
        r = self.heap[self.frames[-1]["env"]]
        d = dict(r.decl)
        for n in st.names:
            d[n] = "global"
        self.heap[self.frames[-1]["env"]] = EnvR(r.vars, r.parent, r.birth, d, r.cls)

    def s_Nonlocal(self, st):
        r = self.heap[self.frames[-1]["env"]]
        d = dict(r.decl)
        for n in st.names:
            d[n] = "nonlocal"
        self.heap[self.frames[-1]["env"]] = EnvR(r.vars, r.parent, r.birth, d, r.cls)

    def s_Return(self, st):
        fr = self.frames[-1]
        v = self.eval(st.value) if st.value is not None else NONE
        if self.g == FALSE:
            return
        if fr["absloop"]:
            fr["loopret"].append((self.g, v, st))
            self.g = FALSE
            return
        fr["ret"] = ite(self.g, v, fr["ret"])
        fr["retg"] = b_or(fr["retg"], self.g)
        fr.setdefault("retnodes", []).append(st)
        self.g = FALSE

    def s_If(self, st):
        c = self.truth(self.eval(st.test))
        g0 = self.g
        self.g = b_and(g0, c)
        if self.g != FALSE:
            self.block(st.body)
        g1 = self.g
        self.g = b_and(g0, b_not(c))
        if st.orelse and self.g != FALSE:
            self.block(st.orelse)
        self.g = b_or(g1, self.g)

    def s_Assert(self, st):
        c = self.truth(self.eval(st.test))
        g0 = self.g
        self.g = b_and(g0, b_not(c))
        if self.g != FALSE:
            self.exc("AssertionError", "assert", st, True)
        self.g = b_and(g0, c)

    def s_Raise(self, st):
        name = "Exception"
        e = st.exc
        if isinstance(e, ast.Call):
            for a in e.args:
                self.eval(a)
            name = dotted(e.func) or "Exception"
        elif e is not None:
            name = dotted(e) or "Exception"
        else:
            name = "<reraise>"
        self.exc(name.split(".")[-1], "raise", st, True)
        self.g = FALSE

    def s_With(self, st):
        e0, g0, sup = len(self.events), self.g, None
        for it in st.items:
            nm = dotted(it.context_expr.func) if isinstance(it.context_expr, ast.Call) else None
            if nm and nm.split(".")[-1] == "suppress":
                sup = tuple((dotted(x) or "?").split(".")[-1] for x in it.context_expr.args)
            v = self.eval(it.context_expr)
            for l in leaves(v):
                if isinstance(l, Ref) and isinstance(self.heap.get(l.id), InstR) or isinstance(l, Unk):
                    raise Unsupported(st, "context manager %r" % (l,))
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        if sup is None:
            self.block(st.body)
            return
        n0 = len(self.pending)
        self.block(st.body)
        for ent in self.pending[n0:]:
            if guard_live(ent[0]):
                # a suppressed exception continues after the block
                raise Unsupported(st, "suppressed %s" % ent[1])
        covered = [e for e in self.events[e0:] if e.kind in ("callback", "solve", "extcall")]
        sv, self.g = self.g, g0
        self.ev("handler", (sup, False, tuple(covered)), st)
        self.g = sv

    def s_Try(self, st):
        n0 = len(self.pending)
        e0 = len(self.events)
        g0 = self.g
        self.block(st.body)
        gbody = self.g
        self.ev_handlers(st, e0, g0)
        raised = self.pending[n0:]
        keep = []
        ghand = FALSE
        caught = {}
        for ent in raised:
            for h in st.handlers:
                if self.handler_matches(h, ent[1]):
                    caught.setdefault(id(h), (h, []))[1].append(ent)
                    break
            else:
                keep.append(ent)
        del self.pending[n0:]
        self.pending.extend(keep)
        self.g = gbody
        if st.orelse and self.g != FALSE:
            self.block(st.orelse)
            gbody = self.g
        for h in st.handlers:
            if id(h) in caught:
                gh = FALSE
                for ent in caught[id(h)][1]:
                    gh = b_or(gh, ent[0])
                self.g = gh
                if h.name:
                    self.setname(h.name, Op(("exc", h.name)))
                self.block(h.body)
                ghand = b_or(ghand, self.g)
        self.g = b_or(gbody, ghand)
        if st.finalbody:
            gsave = self.g
            self.g = g0 if self.g == FALSE else self.g
            self.block(st.finalbody)
            if gsave == FALSE:
                self.g = FALSE

    def handler_matches(self, h, etype):
        return handler_matches(h, etype)

    def ev_handlers(self, st, e0, g0):
        """Record handlers together with the opaque may-raise operations they cover."""
        covered = [e for e in self.events[e0:] if e.kind in ("callback", "solve", "extcall", "update")]
        for h in st.handlers:
            sv = self.g
            self.g = g0
            self.ev("handler", (handler_types(h), reraises(h), tuple(covered)), h)
            self.g = sv

    s_TryStar = s_Try

    def s_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value)
                self.ev("delitem", None, t)
                for l in leaves(o):
                    if isinstance(l, Ref):
                        r = self.deref(l)
                        if isinstance(r, ListR):
                            self.ev("listop", ("del", l.id), t)
                            self.heap[l.id] = ListR((("opaque", "del"),), r.birth, r.shared, r.kind)
                        elif isinstance(r, DictR):
                            k = self.const_key(self.eval(t.slice))
                            d = dict(r.items)
                            d.pop(k, None)
                            self.heap[l.id] = DictR(d, r.birth, r.shared, r.ext)
                        else:
                            raise Unsupported(st, "del item")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value)
                self.ev("attrwrite", (o, self.mangle(t.attr), "del"), t)
            else:
                raise Unsupported(st, "del")

    def s_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def s_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def s_AugAssign(self, st):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, t)
        elif isinstance(t, ast.Attribute):
            ov = self.eval(t.value)
            cur = self.attr(ov, self.mangle(t.attr), t)
        elif isinstance(t, ast.Subscript):
            ov = self.eval(t.value)
            iv = self.eval(t.slice)
            cur = self.getitem(ov, iv, t)
        else:
            raise Unsupported(st, "augmented assignment")
        rhs = self.eval(st.value)
        op = type(st.op).__name__
        # list += extends in place
        if op == "Add" and isinstance(cur, Ref) and isinstance(self.deref(cur), ListR):
            self.list_extend(cur, rhs, st)
            return
        new = self.binop(op, cur, rhs, st)
        # array targets are mutated in place
        for l in leaves(cur):
            if isinstance(l, (Num, Seq)) and l.owner:
                self.inplace(l, new, cur, st)
            elif isinstance(l, Ref) and isinstance(self.deref(l), ArrR):
                self.arr_replace(l, new, st)
                if isinstance(t, ast.Name):
                    return

        def keep(c, n):
            if isinstance(c, Num) and isinstance(n, Num) and c.owner:
                return Num(n.p, c.shape if c.shape is not None else n.shape, c.owner, c.dt)
            if isinstance(c, Ref):
                return c
            return n

        new = self.ap(keep, cur, new)
        if isinstance(t, ast.Name):
            self.setname(t.id, new)
        elif isinstance(t, ast.Attribute):
            self.setattr(ov, self.mangle(t.attr), new, t)
        else:
            self.setitem(ov, iv, new, t)

    def s_Break(self, st):
        fr = self.frames[-1]
        if not fr.get("ctl"):
            raise Unsupported(st, "break")
        fr["ctl"][-1]["brk"] = b_or(fr["ctl"][-1]["brk"], self.g)
        fr["ctl"][-1]["brknode"] = st
        self.g = FALSE

    def s_Continue(self, st):
        fr = self.frames[-1]
        fr["ctl"][-1]["cont"] = b_or(fr["ctl"][-1]["cont"], self.g)
        self.g = FALSE

    # ---- match ------------------------------------------------------------
    def s_Match(self, st):
        subj = self.eval(st.subject)
        rest = self.g
        gout = FALSE
        for case in st.cases:
            self.g = rest
            c = self.pattern(case.pattern, subj)
            if case.guard is not None:
                self.g = b_and(rest, c)
                c = b_and(c, self.truth(self.eval(case.guard)))
            self.g = b_and(rest, c)
            if self.g != FALSE:
                self.block(case.body)
            gout = b_or(gout, self.g)
            rest = b_and(rest, b_not(c))
        self.g = b_or(gout, rest)

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("Eq", v, self.eval(p.value), p))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("Is", v, C(p.value), p))
        if isinstance(p, ast.MatchOr):
            r = FALSE
            for q in p.patterns:
                r = b_or(r, self.pattern(q, v))
            return r
        if isinstance(p, ast.MatchAs):
            r = TRUE if p.pattern is None else self.pattern(p.pattern, v)
            if p.name:
                self.setname(p.name, v)
            return r
        raise Unsupported(p, "match pattern")

    # ---- loops --------------------------------------------------------------
    def s_For(self, st):
        it = self.eval(st.iter)
        fr = self.frames[-1]
        brk = self.iterate(it, lambda v: self.assign(st.target, v), st.body, st)
        if st.orelse:
            if brk == FALSE:
                self.block(st.orelse)
            else:
                g0 = self.g
                self.g = b_and(g0, b_not(brk))
                self.block(st.orelse)
                self.g = b_or(self.g, b_and(g0, brk))

    def static_items(self, v):
        """List of values if the iterable has a small static shape."""
        if isinstance(v, Tup):
            return list(v.xs)
        if isinstance(v, Ref):
            r = self.deref(v)
            if isinstance(r, ListR) and all(s[0] == "one" for s in r.segs):
                return [s[1] for s in r.segs]
            if isinstance(r, DictR) and r.ext is None and not r.items.get("**"):
                return [self.key_value(k) for k in r.items]
        if isinstance(v, Seq) and v.n is not None and v.n.is_const() and 0 <= v.n.c <= 8:
            return [subst(v.body, {IOTA: Aff(i)}) for i in range(v.n.c)]
        if UNROLL[0] and isinstance(v, Seq) and v.n is not None:
            l = lo(v.n)
            if l is not None and l == hi(v.n) and 0 <= l <= 8:
                return [subst(v.body, {IOTA: Aff(i)}) for i in range(int(l))]
        if isinstance(v, C) and isinstance(v.v, str) and len(v.v) <= 64:
            return [C(ch) for ch in v.v]
        return None

    def iterate(self, it, bind, body, st, bodyfn=None):
        """Analyse a for loop; returns the gate under which it was left by break."""
        fr = self.frames[-1]
        run_body = bodyfn or (lambda: self.block(body))
        if isinstance(it, Node):
            col = self.collapse_seq(it)
            if col is None:
                # gated iterables of different kinds: iterate each under its gate
                g0 = self.g
                gout, brk = FALSE, FALSE
                for l, gl in leaf_gates(it):
                    self.g = b_and(g0, gl)
                    if self.g == FALSE:
                        continue
                    b = self.iterate(l, bind, body, st, bodyfn)
                    gout = b_or(gout, self.g)
                    brk = b_or(brk, b)
                self.g = gout
                return brk
            it = col
        items = self.static_items(it)
        if items is not None:
            ctl = dict(brk=FALSE, cont=FALSE)
            fr.setdefault("ctl", []).append(ctl)
            gtotal_brk = FALSE
            for v in items:
                if self.g == FALSE:
                    break
                ctl["brk"] = ctl["cont"] = FALSE
                bind(v)
                run_body()
                gtotal_brk = b_or(gtotal_brk, ctl["brk"])
                self.g = b_or(self.g, ctl["cont"])
            fr["ctl"].pop()
            self.g = b_or(self.g, gtotal_brk)
            return gtotal_brk
        if isinstance(it, Ref) and isinstance(self.deref(it), GenR):
            return self.run_gen(it, bind, run_body, st)
        seq = self.as_seq(it, st)
        if isinstance(seq, Op) or isinstance(seq, Unk) or seq is None:
            return self.opaque_loop(seq, it, bind, run_body, st)
        if isinstance(it, Ref) and isinstance(self.deref(it), IterR):
            r = self.deref(it)
            self.heap[it.id] = IterR(r.seq, IntL(seq.n), r.birth)
        return self.loop(seq.n, lambda j: subst(seq.body, {IOTA: sym(j)}), bind, run_body, st)

    def collapse_seq(self, v):
        """Gated sequences of one common length -> one sequence with gated elements."""
        try:
            segs = self.ap(lambda l: self.as_seq(l, None) or Unk("not a sequence"), v)
        except Unsupported:
            return None
        ls = [l for l in leaves(segs) if not isinstance(l, Bot)]
        if not ls or not all(isinstance(l, Seq) and l.n is not None for l in ls):
            return None
        n = ls[0].n
        if any(l.n != n for l in ls):
            return None

        def body(x):
            if isinstance(x, Node):
                return ite(Node(x.atom, TRUE, FALSE), body(x.hi), body(x.lo))
            return x.body if isinstance(x, Seq) else x

        return Seq(n, body(segs), ls[0].kind)

    def opaque_loop(self, seq, it, bind, run_body, st):
        """Loop over an iterable of unknown structure: assigned locations become opaque."""
        why = "loop over %r" % (it,) if not isinstance(it, Unk) else it.why
        j = self.newj(None)
        elem = Op(("elem", it.t, sym(j))) if isinstance(it, Op) else self.unk("element of " + why, st)
        return self.loop(sym("T" + j), lambda jj: elem, bind, run_body, st, j=j)

    def newj(self, T):
        self.jn += 1
        j = "%sj%d" % (self.tag, self.jn)
        set_range(j, Aff(0), (T - 1) if T is not None else None)
        return j

    def plain_const(self, e):
        """Value of a side-effect-free expression whose operands are all constants, else None."""
        if isinstance(e, ast.Constant):
            return True
        if isinstance(e, ast.Name):
            v = self.eval(e)
            return isinstance(v, C) or isinstance(v, IntL) and v.a.is_const()
        if isinstance(e, (ast.Compare, ast.BinOp, ast.UnaryOp, ast.BoolOp)):
            return all(self.plain_const(x) for x in ast.iter_child_nodes(e) if isinstance(x, ast.expr))
        return False

    def counted_while(self, st):
        """A loop on constants is executed as written (bounded); False when it is not one."""
        if isinstance(st.test, ast.Constant) or not self.plain_const(st.test):
            return False
        fr = self.frames[-1]
        ctl = dict(brk=FALSE, cont=FALSE)
        fr.setdefault("ctl", []).append(ctl)
        brk, left = FALSE, False
        try:
            for _ in range(40):
                if self.g == FALSE:
                    break
                if not self.plain_const(st.test):
                    raise Unsupported(st, "loop condition is constant at first only")
                c = self.ap(self.truth_leaf, self.eval(st.test))
                if c == FALSE:
                    break
                if c != TRUE:
                    raise Unsupported(st, "loop condition is constant at first only")
                ctl["brk"] = ctl["cont"] = FALSE
                self.block(st.body)
                brk = b_or(brk, ctl["brk"])
                self.g = b_or(self.g, ctl["cont"])
            else:
                raise Unsupported(st, "long loop on constants")
        finally:
            fr["ctl"].pop()
        if st.orelse and self.g != FALSE:
            self.block(st.orelse)
        self.g = b_or(self.g, brk)
        return True

    def s_While(self, st):
        snap, g, npend, fr = dict(self.heap), self.g, len(self.pending), self.frames[-1]
        keep = {k: (list(v) if isinstance(v, list) else v) for k, v in fr.items()}
        try:
            if self.counted_while(st):
                return
        except Unsupported:
            self.heap, self.g = snap, g
            del self.pending[npend:]
            fr.clear()
            fr.update(keep)
        if st.orelse:
            raise Unsupported(st, "while-else")
        body = st.body
        test = st.test
        pre = None
        if isinstance(test, ast.Constant) and test.value and isinstance(body[0], ast.If) and len(body[0].body) == 1 and isinstance(body[0].body[0], ast.Break) and not body[0].orelse:
            neg = ast.UnaryOp(op=ast.Not(), operand=body[0].test)
            ast.copy_location(neg, body[0])
            neg._mod = getattr(st, "_mod", None)
            test, body = neg, body[1:]
        j = self.newj(None)
        T = sym("T" + j)
        set_range("T" + j, Aff(0), None)
        self.loop(T, lambda jj: NONE, lambda v: None, lambda: self.block(body), st, j=j, cond=test)

    def snapshot(self):
        return dict(self.heap)

    def loop(self, T, elem, bind, run_body, st, j=None, cond=None):
        saved = {}
        try:
            return self.loop_summary(T, elem, bind, run_body, st, j, cond, saved)
        finally:
            self.untighten(saved)

    @staticmethod
    def untighten(saved):
        for s, r in saved.items():
            RANGES[s] = r
        saved.clear()

    def tighten(self, T, saved):
        """The body runs only when there is an iteration, T >= 1: bound T's symbol accordingly."""
        self.untighten(saved)
        T = aff(T)
        if len(T.t) != 1 or T.t[0][1] != 1 or T.t[0][0] not in RANGES:
            return False
        s = T.t[0][0]
        l, h = RANGES[s]
        if not isinstance(l, Aff) or not l.is_const() or l.c >= 1 - T.c:
            return False
        saved[s] = (l, h)
        set_range(s, Aff(1 - T.c), h)
        return True

    def loop_summary(self, T, elem, bind, run_body, st, j, cond, saved):
        """Summarise a loop by recurrence equations (fixpoint over loop-head shapes)."""
        if j is None:
            j = self.newj(T)
        fr = self.frames[-1]
        outer = tuple(self.loops)
        heap0 = self.snapshot()
        g0 = self.g
        ev0, pe0 = len(self.events), len(self.pending)
        tok0, nid0, jn0 = self.tok, self.nid, self.jn
        heads = {}
        widened = set()
        J = sym(j)
        last = None
        brk = FALSE
        condT = None
        gall = g0
        if cond is None:
            self.tighten(T, saved)
            g0 = self.decide(gall)
        for rnd in range(12):
            self.heap = dict(heap0)
            self.g = g0
            del self.events[ev0:]
            del self.pending[pe0:]
            self.tok, self.nid, self.jn = tok0, nid0, jn0
            self._curj = j
            for loc, h in heads.items():
                self.install(loc, h, heap0)
            head_heap = self.snapshot()
            stores0 = len(self.stores)
            self.loops.append(j)
            fr["absloop"] += 1
            fr.setdefault("loopret", [])
            lr0 = len(fr["loopret"])
            ctl = dict(brk=FALSE, cont=FALSE)
            fr.setdefault("ctl", []).append(ctl)
            try:
                if cond is not None:
                    # the condition is also reached by the iteration that fails it
                    rg = RANGES.get(j)
                    set_range(j, Aff(0), None)
                    cv = self.truth(self.eval(cond))
                    RANGES[j] = rg
                    condT = cv
                    # inside the body the condition holds
                    self.g = g0
                else:
                    bind(elem(j))
                run_body()
                self.g = b_or(self.g, ctl["cont"])
            finally:
                fr["ctl"].pop()
                fr["absloop"] -= 1
                self.loops.pop()
            brk = ctl["brk"]
            rets = fr["loopret"][lr0:]
            del fr["loopret"][lr0:]
            stores = self.stores[stores0:]
            del self.stores[stores0:]
            if cond is not None:
                T2 = self.while_T(condT, j, st)
                if T2 is not None and T2 != T:
                    T = T2
                    set_range(j, Aff(0), T - 1)
                    self.tighten(T, saved)
                    g0 = self.decide(gall)
                    heads = {k: h for k, h in heads.items() if h["kind"] == "ind"}
                    continue
            new = self.heads_from(heap0, head_heap, self.heap, stores, j, T, heads, widened, rnd, st)
            if strip(new) == strip(heads):
                break
            ind = {k: h for k, h in new.items() if h["kind"] == "ind"}
            if set(ind) - set(heads):
                # induction variables first: what was computed without them is discarded
                heads = ind
                continue
            heads = new
        else:
            raise Unsupported(st, "loop summary does not converge")
        if cond is not None and self.while_T(condT, j, st) is None:
            raise Unsupported(st, "trip count of while loop: %r" % (condT,))
        if rets:
            raise Unsupported(rets[0][2], "return inside a summarised loop")
        self.loopT[j] = T
        if not brk == FALSE:
            self.ev("earlyexit", brk, ctl.get("brknode", st))
            if any(a[0] not in ("eq0", "ge0", "unk") for a in atoms_of(brk)):
                early = True
            else:
                raise Unsupported(st, "conditional break")
        # exit state
        self.untighten(saved)
        gated = g0 != gall
        g0 = gall
        final = self.heap
        self.heap = {k: v for k, v in final.items()}
        self.g = g0
        for loc, h in heads.items():
            self.leave(loc, h, heap0, j, T, brk, gated)
        for k in list(self.heap):
            if k in heap0:
                if not any(l[1] == k for l in heads):
                    self.heap[k] = heap0[k]
        # objects allocated in the body survive only for references in exit values
        self.g = g0
        for loc, h in heads.items():
            for rid, val in h["recs"]:
                self.recs[rid] = RecDef(rid, j, T, outer, val, st, fr["name"])
        return FALSE

    def while_T(self, c, j, st):
        """Trip count from the loop condition at iteration j."""
        if c is None:
            return None
        if isinstance(c, Leaf):
            return None
        if isinstance(c.hi, Node) or isinstance(c.lo, Node):
            return None
        kind, a = c.atom[0], c.atom[1] if len(c.atom) > 1 else None
        pos = c.hi == TRUE
        if kind == "ge0":
            e = a if pos else -a - 1
            k = e.coef(j)
            if k == -1:
                return e + sym(j) + 1
            return None
        if kind == "eq0" and not pos:
            k = a.coef(j)
            if k == 1:
                return -(a - sym(j))
            if k == -1:
                return a + sym(j)
        return None

    # -- loop-carried locations
    def locs(self, h1, h2):
        """Locations whose content differs between two heaps (objects present in the first)."""
        out = []
        for k, r in h1.items():
            r2 = h2.get(k)
            if r2 is None or r is r2:
                continue
            if isinstance(r, EnvR):
                for n in set(r.vars) | set(r2.vars):
                    if r.vars.get(n, BOT) != r2.vars.get(n, BOT):
                        out.append(("env", k, n))
            elif isinstance(r, InstR):
                for n in set(r.fields) | set(r2.fields):
                    if r.fields.get(n, BOT) != r2.fields.get(n, BOT):
                        out.append(("inst", k, n))
            elif isinstance(r, DictR):
                for n in set(r.items) | set(r2.items):
                    if r.items.get(n, BOT) != r2.items.get(n, BOT):
                        out.append(("dict", k, n))
            elif isinstance(r, ListR):
                if r.segs != r2.segs:
                    out.append(("list", k))
            elif isinstance(r, ArrR):
                if r.body != r2.body or r.n != r2.n:
                    out.append(("arr", k))
            elif isinstance(r, IterR):
                if r.pos != r2.pos:
                    out.append(("iter", k, "pos"))
        return sorted(out, key=repr)

    def get(self, heap, loc):
        r = heap.get(loc[1])
        if r is None:
            return BOT
        if loc[0] == "env":
            return r.vars.get(loc[2], BOT)
        if loc[0] == "inst":
            return r.fields.get(loc[2], BOT)
        if loc[0] == "dict":
            return r.items.get(loc[2], BOT)
        if loc[0] == "iter":
            return r.pos

    def put(self, loc, v):
        r = self.heap[loc[1]]
        if loc[0] == "env":
            self.heap[loc[1]] = r.with_(loc[2], v)
        elif loc[0] == "inst":
            self.heap[loc[1]] = r.with_(loc[2], v)
        elif loc[0] == "dict":
            d = dict(r.items)
            d[loc[2]] = v
            self.heap[loc[1]] = DictR(d, r.birth, r.shared, r.ext)
        elif loc[0] == "iter":
            self.heap[loc[1]] = IterR(r.seq, v, r.birth)

    def rid(self, loc, j, sub=""):
        nm = loc[2] if len(loc) > 2 else loc[0] + str(loc[1])
        return "%s.%s%s#%d" % (j, nm, sub, loc[1])

    def skel(self, v, rid, j, recs, node, keep=False):
        """Loop-carried template of a value: numeric leaves become recurrence letters at iteration j."""
        idx = tuple(sym(x) for x in self.loops) + (sym(j),)
        numeric = [l for l in leaves(v) if isinstance(l, Num)]
        if keep and numeric and not any(carries(l.p, j) for l in numeric):
            numeric = []
        if numeric:
            shp = numeric[0].shape
            for l in numeric[1:]:
                if l.shape != shp:
                    shp = None
            own = set()
            for l in numeric:
                for t in l.owner:
                    own.add(("prev", t[1]) if t[0] == "fresh" else t)
            own = frozenset(own)

            def onlynum(l):
                return l if isinstance(l, Num) else BOT

            recs.append((rid, self.mapleaf(onlynum, v)))
            R = Num(P_let(Let("rec", (rid,) + idx, False, False, shp)), shp, own, numeric[0].dt)
        n = [0]

        def f(l):
            if isinstance(l, Num):
                return R if numeric else l
            if isinstance(l, Tup):
                n[0] += 1
                return Tup([self.skel(x, rid + ".%d_%d" % (n[0], i), j, recs, node, True) for i, x in enumerate(l.xs)], l.names)
            if isinstance(l, (Ref,)):
                return Unk("object created in an earlier iteration of the loop at %s" % where(node))
            return l

        return self.mapleaf(f, v)

    def mapleaf(self, f, v):
        if isinstance(v, Node):
            return ite(Node(v.atom, TRUE, FALSE), self.mapleaf(f, v.hi), self.mapleaf(f, v.lo))
        if isinstance(v, Bot):
            return v
        return f(v)

    def heads_from(self, heap0, head, final, stores, j, T, old, widened, rnd, st):
        new = {}
        J = sym(j)
        changed = set(self.locs(head, final)) | set(old)
        # references that only live inside one iteration are dropped by skel()
        for loc in sorted(changed, key=repr):
            if loc[1] not in heap0:
                continue
            recs = []
            if loc[0] in ("env", "inst", "dict", "iter"):
                v0, v1, vh = self.get(heap0, loc), self.get(final, loc), self.get(head, loc)
                o = old.get(loc)
                if o is None and v1 == vh:
                    continue
                h = self.scalar_head(loc, v0, v1, vh, j, o, widened, rnd, recs, st)
                new[loc] = h
            elif loc[0] == "list":
                new[loc] = self.list_head(loc, heap0[loc[1]], head[loc[1]], final[loc[1]], j, st)
            elif loc[0] == "arr":
                new[loc] = self.arr_head(loc, heap0[loc[1]], head[loc[1]], final[loc[1]], stores, j, T, st)
        return new

    def scalar_head(self, loc, v0, v1, vh, j, o, widened, rnd, recs, st):
        J = sym(j)
        # integer induction variable
        if isinstance(v0, IntL) and loc not in widened:
            if isinstance(v1, IntL):
                if o is None:
                    d = v1.a - v0.a
                    if d.is_const() and d.c != 0:
                        return dict(kind="ind", a0=v0.a, c=d.c, recs=(), val=v1)
                elif o["kind"] == "ind":
                    if isinstance(vh, IntL) and v1.a - vh.a == Aff(o["c"]):
                        return dict(kind="ind", a0=v0.a, c=o["c"], recs=(), val=None)
            if o is not None and o["kind"] == "ind":
                widened.add(loc)
        v1w = v1
        if o is not None and o["kind"] == "sh" and rnd > 5:
            # numeric constants that keep changing become numeric letters
            v1w = self.mapleaf(lambda l: npmodel.to_num_leaf(self, l) if isinstance(l, (C, IntL)) and npmodel.is_number(l) else l, v1)
        sk = self.skel(v1w, self.rid(loc, j), j, recs, st)
        return dict(kind="sh", v0=v0, sk=sk, recs=tuple(recs), v1=v1w)

    def head_value(self, h, j):
        J = sym(j)
        if h["kind"] == "ind":
            return IntL(h["a0"] + J.scale(h["c"]))
        prev = subst(h["sk"], {j: J - 1})
        first = atom_v(("eq0", J))
        if first == FALSE or first == TRUE:
            # degenerate trip counts: keep the distinction
            first = Node(("eq0", J), TRUE, FALSE)
        return ite(first, h["v0"], prev)

    def install(self, loc, h, heap0):
        if loc[0] == "list":
            r = self.heap[loc[1]]
            self.heap[loc[1]] = ListR(h["head"], r.birth, r.shared, r.kind)
        elif loc[0] == "arr":
            r = self.heap[loc[1]]
            self.heap[loc[1]] = ArrR(r.n, h["head"], r.row, r.dt, r.birth, r.shared, r.kind)
        else:
            self.put(loc, self.head_value(h, self._curj))

    def list_head(self, loc, r0, rh, r1, j, st):
        J = sym(j)
        s0, sh, s1 = r0.segs, rh.segs, r1.segs
        n = len(sh)
        recs = []
        if s1[:n] == sh:
            items, front = s1[n:], False
        elif n and s1[len(s1) - n:] == sh or n == 0:
            items, front = s1[: len(s1) - n], True
        else:
            return dict(kind="lst", head=(("opaque", "list rewritten in loop at %s" % where(st)),), exit=(("opaque", "list rewritten in loop at %s" % where(st)),), recs=())
        if not items:
            return dict(kind="lst", head=s0, exit=s0, recs=())
        if len(items) == 1 and items[0][0] == "one":
            sk = self.skel(items[0][1], self.rid(loc, j, "item"), j, recs, st, True)
            body = subst(sk, {j: sym(IOTA)})
            bodyr = subst(sk, {j: J - 1 - sym(IOTA)})
            if front:
                head = (("run", J, bodyr),) + s0
                ex = lambda T: (("run", T, subst(sk, {j: T - 1 - sym(IOTA)})),) + s0
            else:
                head = s0 + (("run", J, body),)
                ex = lambda T: s0 + (("run", T, body),)
            return dict(kind="lst", head=head, exitf=ex, key=(sk, front), recs=tuple(recs))
        if len(items) == 1 and items[0][0] == "alt" and len(items[0][2]) == 1 and items[0][2][0][0] == "one" and not front and subst(items[0][1], {j: sym("j?")}) == items[0][1]:
            # appended in every iteration of a loop that some objects only see under a condition
            g = items[0][1]
            sk = self.skel(items[0][2][0][1], self.rid(loc, j, "item"), j, recs, st, True)
            body = subst(sk, {j: sym(IOTA)})
            return dict(kind="lst", head=s0 + (("alt", g, (("run", J, body),)),), exitf=lambda T: s0 + (("alt", g, (("run", T, body),)),), key=(sk, g), recs=tuple(recs))
        # several or conditional items per iteration
        desc = []
        for i, s in enumerate(items):
            if s[0] == "one":
                desc.append(("one", self.skel(s[1], self.rid(loc, j, "item%d" % i), j, recs, st, True)))
            elif s[0] == "alt" and all(q[0] == "one" for q in s[2]):
                desc.append(("opq", repr(s), s[1]))
            else:
                desc.append(("opq", repr(s)))
        seg = (("multi", sym(j), tuple(desc), st.lineno),)
        return dict(kind="lst", head=s0 + seg, exitf=lambda T: s0 + (("multi", T, tuple(desc), st.lineno),), key=tuple(desc), recs=tuple(recs))

    def arr_head(self, loc, r0, rh, r1, stores, j, T, st):
        J = sym(j)
        recs = []
        idxs = {a for (i, a) in stores if i == loc[1]}
        if len(idxs) == 1:
            w = next(iter(idxs))
            k = w.coef(j)
            if abs(k) == 1:
                W = subst(r1.body, {IOTA: w})
                sk = self.skel(W, self.rid(loc, j, "row"), j, recs, st)
                # iteration that writes index i: i = k*j + c  ->  j = k*(i - c)
                c = w - J.scale(k)
                inv = (sym(IOTA) - c).scale(k)
                at = subst(sk, {j: inv})

                def written(upto):
                    return b_and(atom_v(("ge0", inv)), atom_v(("ge0", upto - 1 - inv)))

                with_range = RANGES.get(IOTA)
                set_range(IOTA, Aff(0), r0.n - 1)
                head = ite(written(J), at, r0.body)
                exit_ = ite(written(T), at, r0.body)
                if with_range:
                    RANGES[IOTA] = with_range
                else:
                    set_range(IOTA, Aff(0), None)
                return dict(kind="arr", head=head, exit=exit_, recs=tuple(recs), w=w)
        why = "array written in loop at %s" % where(st)
        u = Unk(why)
        return dict(kind="arr", head=u, exit=u, recs=())

    def decide(self, g):
        """Gate with the atoms decided by the symbol ranges replaced."""
        for a in atoms_of(g):
            r = atom_v(a) if a[0] in ("eq0", "ge0") else None
            if r == TRUE or r == FALSE:
                g = restrict(g, a, r == TRUE)
        return g

    def leave(self, loc, h, heap0, j, T, brk, gated=False):
        if loc[0] == "list":
            r = heap0[loc[1]]
            segs = h["exitf"](T) if "exitf" in h else h["exit"]
            if brk != FALSE:
                segs = (("opaque", "loop left early"),)
            if gated:
                n = len(r.segs)
                if segs[:n] == r.segs:
                    segs = r.segs + ((("alt", self.rel(r.birth), segs[n:]),) if self.rel(r.birth) != TRUE else segs[n:])
                else:
                    segs = (("opaque", "list changed by a conditional loop"),)
            self.heap[loc[1]] = ListR(segs, r.birth, r.shared, r.kind)
        elif loc[0] == "arr":
            r = heap0[loc[1]]
            body = ite(atom_v(("ge0", T - 1)), h["exit"], r.body)
            if gated:
                body = ite(self.rel(r.birth), body, r.body)
            if brk != FALSE:
                body = Num(P_let(Let("np", ("rows-missing-after-early-exit", brk))))
            self.heap[loc[1]] = ArrR(r.n, body, r.row, r.dt, r.birth, r.shared, r.kind)
        else:
            if h["kind"] == "ind":
                v = IntL(h["a0"] + T.scale(h["c"]))
                v0 = IntL(h["a0"])
            else:
                v = subst(h["sk"], {j: T - 1})
                v0 = h["v0"]
            ne = atom_v(("ge0", T - 1))
            r = heap0[loc[1]]
            self.heap.setdefault(loc[1], r)
            if gated:
                ne = b_and(ne, self.rel(getattr(r, "birth", TRUE)))
            self.put(loc, ite(ne, v, v0))

    # ---- generators -----------------------------------------------------------
    def run_gen(self, ref, bind, run_body, st):
        gen = self.deref(ref)
        fi = self.funcs[gen.fn]
        outer_frames = self.frames

        def on_yield(v):
            sv = self.frames
            self.frames = outer_frames
            fr = outer_frames[-1]
            ctl = dict(brk=FALSE, cont=FALSE)
            fr.setdefault("ctl", []).append(ctl)
            fr["absloop"] += 1 if len(self.loops) > nloops else 0
            fr.setdefault("loopret", [])
            try:
                bind(v)
                run_body()
            finally:
                fr["absloop"] -= 1 if len(self.loops) > nloops else 0
                fr["ctl"].pop()
                self.frames = sv
            if ctl["brk"] != FALSE:
                raise Unsupported(st, "break out of a generator loop")
            self.g = b_or(self.g, ctl["cont"])
            return NONE

        nloops = len(self.loops)
        self.frames = outer_frames + [dict(env=gen.env, name=fi.name, ret=BOT, retg=FALSE, mod=fi.mod, cls=fi.cls, absloop=0, yielder=on_yield)]
        try:
            g0 = self.g
            self.block(fi.node.body)
            self.g = g0
        finally:
            self.frames = outer_frames
        return FALSE

    # ---- names ------------------------------------------------------------------
    def mangle(self, n):
        cid = None
        for fr in reversed(self.frames):
            cid = fr.get("cls")
            break
        if cid and n.startswith("__") and not n.endswith("__"):
            return "_" + self.classes[cid].name.lstrip("_") + n
        return n

    def setname(self, n, v):
        fr = self.frames[-1]
        n = self.mangle(n)
        eid = fr["env"]
        d = self.heap[eid].decl.get(n)
        if d:
            p = self.heap[eid].parent
            if d == "global":
                while self.heap[p].parent is not None:
                    p = self.heap[p].parent
                self.ev("globalwrite", n)
            else:
                while p is not None and n not in self.heap[p].vars:
                    p = self.heap[p].parent
            self.env_set(p, n, v)
            return
        self.env_set(eid, n, v)

    def name(self, n, node):
        n = self.mangle(n)
        e = self.frames[-1]["env"]
        first = True
        while e is not None:
            r = self.heap[e]
            if n in r.vars and not (r.decl.get(n) and first):
                v = r.vars[n]
                if not isinstance(v, Bot):
                    if r.parent is None and not self.frames[-1].get("module"):
                        self.ev("globalread", (n, v), node)
                    return v
            first = False
            e = r.parent
            while e is not None and self.heap[e].cls is not None:
                e = self.heap[e].parent
        b = npmodel.builtin(n)
        if b is not None:
            return b
        self.exc("NameError", n, node)
        return self.unk("undefined name " + n, node)

    # ---- assignment ----------------------------------------------------------------
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.static_items(v) if not isinstance(v, Node) else None
                if items is None:
                    raise Unsupported(t, "starred unpacking")
                i = star[0]
                k = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x)
                self.assign(t.elts[i].value, self.new(ListR([("one", x) for x in items[i: len(items) - k]], self.g)))
                for e, x in zip(t.elts[i + 1:], items[len(items) - k:]):
                    self.assign(e, x)
                return
            for i, e in enumerate(t.elts):
                self.assign(e, self.unpack(v, i, len(t.elts), t))
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), self.mangle(t.attr), v, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value), self.eval(t.slice), v, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            raise Unsupported(t, "assignment target")

    def unpack(self, v, i, n, node):
        def f(l):
            if isinstance(l, Tup):
                if len(l.xs) != n:
                    return self.exc("ValueError", "unpack", node)
                return l.xs[i]
            if isinstance(l, (Op, Unk)):
                return self.getitem_leaf(l, IntL(i), node)
            if isinstance(l, (Ref, Seq, Num)):
                return self.getitem_leaf(l, IntL(i), node)
            return self.unk("unpacking %r" % (l,), node)

        return self.ap(f, v)

    def setattr(self, o, name, v, node):
        for l, gl in leaf_gates(o):
            sv = self.g
            self.g = b_and(sv, gl)
            if self.g == FALSE:
                self.g = sv
                continue
            if isinstance(l, Ref) and isinstance(self.deref(l), InstR):
                r = self.deref(l)
                ci = self.classes.get(r.cls)
                self.ev("attrwrite", (l, name, "set"), node)
                old = r.fields.get(name, BOT)
                self.heap[l.id] = r.with_(name, ite(self.rel(r.birth), v, old))
            elif isinstance(l, Fun) and l.kind == "class":
                self.ev("classwrite", (self.classes[l.data].name, name), node)
                self.env_set(self.classes[l.data].env, name, v)
            elif isinstance(l, Fun) and l.kind in ("func", "bound"):
                self.ev("globalwrite", "function attribute " + name, node)
            elif isinstance(l, Fun):
                self.ev("extwrite", (l.data, name), node)
            elif isinstance(l, (Num, Seq)) and name in ("shape", "flags", "dtype"):
                self.ev("mutate", (l, "attribute " + name), node)
                for t in l.owner:
                    self.ev("mutate-token", t, node)
            else:
                self.ev("attrwrite", (l, name, "set"), node)
            self.g = b_or(b_and(sv, b_not(gl)), self.g)

    def const_key(self, v):
        if isinstance(v, C):
            return v
        if isinstance(v, IntL) and v.a.is_const():
            return v
        if isinstance(v, (StrL, Op, Tup)):
            return v
        return None

    def key_value(self, k):
        return k

    def setitem(self, o, i, v, node):
        for l, gl in leaf_gates(o):
            sv = self.g
            self.g = b_and(sv, gl)
            if self.g == FALSE:
                self.g = sv
                continue
            self.setitem_leaf(l, i, v, node, o)
            self.g = b_or(b_and(sv, b_not(gl)), self.g)

    def setitem_leaf(self, l, i, v, node, whole):
        if isinstance(l, Ref):
            r = self.deref(l)
            if getattr(r, "shared", False):
                self.ev("sharedwrite", l, node)
            if isinstance(r, DictR):
                k = self.const_key(i)
                if k is None:
                    d = {"**": self.unk("dictionary with computed keys", node)}
                else:
                    d = dict(r.items)
                    d[k] = ite(self.rel(r.birth), v, d.get(k, npmodel.ABSENT if r.ext is None else BOT))
                self.heap[l.id] = DictR(d, r.birth, r.shared, r.ext)
                return
            if isinstance(r, ArrR):
                self.arr_store(l, i, v, node)
                return
            if isinstance(r, ListR):
                self.list_store(l, i, v, node)
                return
            if isinstance(r, InstR):
                self.call(self.attr(l, "__setitem__", node), [i, v], {}, node)
                return
        if isinstance(l, (Num, Seq)):
            full = is_full_slice(i) or i == C(Ellipsis)
            if full:
                new = self.ap(lambda vv: npmodel.fill_leaf(self, l, vv, node), v)
            elif isinstance(l, Seq):
                def st(ix):
                    if isinstance(ix, IntL):
                        a = ix.a
                        if hi(a) is not None and hi(a) < 0:
                            a = a + l.n
                        return Seq(l.n, ite(atom_v(("eq0", sym(IOTA) - a)), v, l.body), l.kind, l.owner, l.dt, l.ext)
                    return Seq(l.n, Op(("setitem", l.body, ix)), l.kind, l.owner)
                new = self.ap(st, i)
            else:
                new = self.ap(lambda ix, vv: Num(P_let(Let("np", ("setitem", l.p, npmodel.keyof(ix), npmodel.keyof(vv)), False, False, l.shape)), l.shape, l.owner), i, v)
            if not l.owner:
                self.ev("mutate", (l, "item assignment"), node)
            self.inplace(l, new, whole, node)
            return
        if isinstance(l, Op):
            self.ev("opwrite", (l, npmodel.keyof(i) if isinstance(i, Leaf) else None, v), node)
            return
        if isinstance(l, Unk):
            self.ev("unkwrite", l.why, node)
            return
        raise Unsupported(node, "item assignment on %r" % (l,))

    # ---- arrays ----------------------------------------------------------------------
    def arr_store(self, ref, i, v, node):
        r = self.deref(ref)

        def cast(x):
            x = npmodel.as_num(self, x)
            if isinstance(x, Num):
                self.check_row(x, r.row, node)
                if r.dt is not None and r.dt not in npmodel.FLOATS:
                    return Num(P_let(Let("np", ("cast", r.dt, x.p))), r.row)
                return Num(x.p, r.row if r.row is not None else x.shape, frozenset(), r.dt)
            return x

        i0 = i
        rest = None
        if isinstance(i, Tup):
            xs = list(i.xs)
            while len(xs) > 1 and (is_full_slice(xs[-1]) or xs[-1] == C(Ellipsis)):
                xs.pop()
            if len(xs) == 1:
                i0 = xs[0]
            else:
                i0, rest = xs[0], xs[1:]
        if (is_full_slice(i0) or i0 == C(Ellipsis)) and rest is None:
            self.arr_replace(ref, v, node)
            return
        g = self.rel(r.birth)
        body = r.body
        for l, gl in leaf_gates(i0):
            if b_and(gl, g) == FALSE:
                continue
            if isinstance(l, IntL):
                a = l.a
                if hi(a) is not None and hi(a) < 0:
                    a = a + r.n
                if gl == TRUE:
                    self.past_end(r.n, a, node)
                at = atom_v(("eq0", sym(IOTA) - a))
                cond = b_and(b_and(at, gl), g)
                if rest is not None:
                    key = tuple(npmodel.keyof(x) if isinstance(x, Leaf) else x for x in rest)
                    old = subst(r.body, {IOTA: a})
                    v = self.ap(lambda o, vv: Num(P_let(Let("np", ("setitem", npmodel.keyof(o), key, npmodel.keyof(vv)))), r.row), old, v)
                val = self.ap(cast, v) if r.kind == "array" else v
                # the stored value is a function of the loop counters, not of IOTA
                body = ite(cond, val, body)
                self.stores.append((ref.id, a))
            elif isinstance(l, SliceL):
                sl = npmodel.slice_parts(l, r.n)
                if sl is None:
                    body = self.unk("slice store", node)
                else:
                    a, b, s = sl
                    vs = self.ap(lambda x: self.as_seq(x, None) or x, v)

                    def el(x):
                        if isinstance(x, Seq):
                            off = (sym(IOTA) - a).scale(s)
                            return subst(x.body, {IOTA: off})
                        return x

                    val = self.ap(cast, self.ap(el, vs))
                    if s == 1:
                        cond = b_and(atom_v(("ge0", sym(IOTA) - a)), atom_v(("ge0", b - 1 - sym(IOTA))))
                    elif s == -1:
                        cond = b_and(atom_v(("ge0", a - sym(IOTA))), atom_v(("ge0", sym(IOTA) - b - 1)))
                    else:
                        raise Unsupported(node, "strided store")
                    body = ite(b_and(b_and(cond, gl), g), val, body)
            elif isinstance(l, BArr) and rest is None and npmodel.row_of_mask(l.t) is not None and npmodel.mask_len(l.t) == r.n:
                # elements selected by a mask computed element by element
                m = BArr(npmodel.row_of_mask(l.t))
                new = self.ap(lambda o, x: npmodel.opaque_num("np.where", (m, npmodel.keyof(x), npmodel.keyof(o)), r.row) if isinstance(x, (Num, C, IntL)) else self.unk("masked store", node), body, v)
                body = ite(b_and(gl, g), new, body)
            else:
                body = ite(b_and(gl, g), self.unk("array store at %r" % (l,), node), body)
        self.heap[ref.id] = ArrR(r.n, body, r.row, r.dt, r.birth, r.shared, r.kind)

    def check_row(self, x, row, node):
        if row is None or x.shape is None:
            return
        if not npmodel.broadcast_to_ok(x.shape, row):
            self.ev("shape", "storing shape %r into row of shape %r" % (x.shape, row), node)

    def arr_replace(self, ref, v, node):
        r = self.deref(ref)

        def f(x):
            s = self.as_seq(x, None) if not isinstance(x, (Num, C, IntL)) else None
            if isinstance(s, Seq):
                return s.body
            if r.kind == "array" and r.row is not None:
                return npmodel.fill_leaf(self, Num(ZERO, r.row, frozenset(), r.dt), x, node)
            return npmodel.as_num(self, x)

        body = self.ap(f, v)
        self.heap[ref.id] = ArrR(r.n, ite(self.rel(r.birth), body, r.body), r.row, r.dt, r.birth, r.shared, r.kind)

    def inplace(self, old, new, whole, node):
        """In-place update of a numeric array leaf: effects on every alias."""
        toks = old.owner
        for t in toks:
            self.ev("mutate-token", t, node)
        nl = new
        for t in toks:
            if t[0] == "row" and isinstance(self.heap.get(t[1]), ArrR):
                self.arr_store(Ref(t[1]), IntL(t[2]), new, node)
        op, npv = (old.p if isinstance(old, Num) else None), new
        g = self.g

        def f(l):
            if isinstance(old, Num) and isinstance(l, Num) and (l.owner & toks):
                if l.p == old.p:
                    return self.mapleaf(lambda n: Num(n.p, l.shape, l.owner, l.dt) if isinstance(n, Num) else n, npv)
                if l.p == P_T(old.p):
                    return self.mapleaf(lambda n: Num(P_T(n.p), l.shape, l.owner, l.dt) if isinstance(n, Num) else n, npv)
                if any(t[0] == "prev" for t in (l.owner & toks)):
                    return Num(P_let(Let("np", ("overwritten-later", l.p))), l.shape, l.owner, l.dt)
                return l
            if isinstance(old, Seq) and isinstance(l, Seq) and (l.owner & toks) and l == old:
                return npv
            if isinstance(l, Tup):
                return Tup([self.mapleaf(f, x) for x in l.xs], l.names)
            return l

        def upd(v, birth):
            nv = self.mapleaf(f, v)
            return v if nv is v or nv == v else ite(self.rel(birth), nv, v)

        for k, r in list(self.heap.items()):
            if isinstance(r, EnvR):
                ch = {n: upd(v, r.birth) for n, v in r.vars.items()}
                if any(ch[n] is not r.vars[n] for n in ch):
                    self.heap[k] = EnvR(ch, r.parent, r.birth, r.decl, r.cls)
            elif isinstance(r, InstR):
                ch = {n: upd(v, r.birth) for n, v in r.fields.items()}
                if any(ch[n] is not r.fields[n] for n in ch):
                    self.heap[k] = InstR(r.cls, ch, r.birth, r.name)
            elif isinstance(r, DictR):
                ch = {n: upd(v, r.birth) for n, v in r.items.items()}
                if any(ch[n] is not r.items[n] for n in ch):
                    self.heap[k] = DictR(ch, r.birth, r.shared, r.ext)
            elif isinstance(r, ListR):
                segs = []
                for s in r.segs:
                    if s[0] == "one":
                        segs.append(("one", upd(s[1], r.birth)))
                    elif s[0] == "run":
                        segs.append(("run", s[1], upd(s[2], r.birth)))
                    else:
                        segs.append(s)
                if tuple(segs) != r.segs:
                    self.heap[k] = ListR(segs, r.birth, r.shared, r.kind)

    # ---- lists -----------------------------------------------------------------------
    def list_append(self, ref, v, node, front=False):
        r = self.deref(ref)
        if isinstance(r, ArrR) and r.kind == "list":
            r = ListR((("run", r.n, r.body),), r.birth, r.shared, "list")
        if not isinstance(r, ListR):
            raise Unsupported(node, "append on %r" % (type(r).__name__,))
        if r.kind == "bounded":
            self.ev("listop", ("bounded", ref.id), node)
            self.heap[ref.id] = ListR((("opaque", "bounded deque"),), r.birth, r.shared, r.kind)
            return
        if r.shared:
            self.ev("sharedwrite", ref, node)
        g = self.rel(r.birth)
        seg = ("one", v) if g == TRUE else ("alt", g, (("one", v),))
        segs = (seg,) + r.segs if front else r.segs + (seg,)
        self.heap[ref.id] = ListR(self.merge_alt(segs), r.birth, r.shared, r.kind)

    def merge_alt(self, segs):
        """Complementary conditional appends form one unconditional gated item."""
        segs = list(segs)
        i = 0
        while i + 1 < len(segs):
            a, b = segs[i], segs[i + 1]
            if a[0] == "alt" and b[0] == "alt" and b_and(a[1], b[1]) == FALSE and len(a[2]) == len(b[2]) == 1 and a[2][0][0] == b[2][0][0] == "one":
                g = b_or(a[1], b[1])
                v = ite(a[1], a[2][0][1], b[2][0][1])
                segs[i: i + 2] = [("one", v) if g == TRUE else ("alt", g, (("one", v),))]
                continue
            i += 1
        return tuple(segs)

    def list_extend(self, ref, v, node):
        r = self.deref(ref)
        if r.shared:
            self.ev("sharedwrite", ref, node)
        items = None
        if isinstance(v, Ref) and isinstance(self.deref(v), ListR):
            items = self.deref(v).segs
        elif isinstance(v, Tup):
            items = tuple(("one", x) for x in v.xs)
        else:
            if isinstance(v, Ref) and isinstance(self.deref(v), GenR):
                v = self.materialise(v, node)
                items = self.deref(v).segs
            else:
                s = self.as_seq(v, node) if not isinstance(v, Node) else None
                if isinstance(s, Seq):
                    items = (("run", s.n, s.body),)
        if items is None:
            items = (("opaque", "extended with %r" % (v,)),)
        g = self.rel(r.birth)
        if g != TRUE:
            items = tuple(("alt", g, (s,)) for s in items)
        self.heap[ref.id] = ListR(r.segs + tuple(items), r.birth, r.shared, r.kind)

    def list_store(self, ref, i, v, node):
        r = self.deref(ref)
        if r.shared:
            self.ev("sharedwrite", ref, node)
        n = self.list_len(r)
        if isinstance(i, IntL) and all(s[0] == "one" for s in r.segs) and i.a.is_const():
            k = i.a.c
            if k < 0:
                k += len(r.segs)
            if 0 <= k < len(r.segs):
                segs = list(r.segs)
                segs[k] = ("one", ite(self.rel(r.birth), v, segs[k][1]))
                self.heap[ref.id] = ListR(segs, r.birth, r.shared, r.kind)
                return
        s = self.list_seq(r)
        if s is not None and isinstance(i, (IntL, SliceL)):
            self.heap[ref.id] = ArrR(s.n, s.body, None, None, r.birth, r.shared, "list")
            self.arr_store(ref, i, v, node)
            return
        self.ev("listop", ("item store", ref.id), node)
        self.heap[ref.id] = ListR((("opaque", "item store"),), r.birth, r.shared, r.kind)

    def list_len(self, r):
        n = Aff(0)
        for s in r.segs:
            if s[0] == "one":
                n = n + 1
            elif s[0] == "run":
                n = n + s[1]
            elif s[0] == "prior":
                n = n + sym("len:" + s[1])
            else:
                return None
        return n

    def list_seq(self, r):
        """Sequence view of a list record (None if it has opaque parts)."""
        if not r.segs:
            return Seq(Aff(0), BOT, "list")
        n = self.list_len(r)
        if n is None:
            return None
        I = sym(IOTA)
        sv = RANGES.get(IOTA)
        set_range(IOTA, Aff(0), n - 1)
        off = Aff(0)
        parts = []
        for s in r.segs:
            if s[0] == "one":
                parts.append((off, Aff(1), s[1]))
                off = off + 1
            elif s[0] == "run":
                parts.append((off, s[1], subst(s[2], {IOTA: I - off})))
                off = off + s[1]
            else:
                nm = s[1]
                parts.append((off, sym("len:" + nm), Op(("prior", nm, I - off))))
                off = off + sym("len:" + nm)
        body = parts[-1][2]
        for o, l, v in reversed(parts[:-1]):
            # index below o + l -> this part
            body = ite(atom_v(("ge0", o + l - 1 - I)), v, body)
        if sv is not None:
            RANGES[IOTA] = sv
        else:
            set_range(IOTA, Aff(0), None)
        return Seq(n, body, "list")

    def materialise(self, ref, node):
        """Generator -> list."""
        out = self.new(ListR((), self.g))
        self.iterate(ref, lambda v: self.list_append(out, v, node), [], node)
        return out

    def as_seq(self, l, node):
        """Sequence view of a leaf, or None/Op/Unk."""
        if isinstance(l, Seq):
            return l
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, ArrR):
                body = r.body
                if r.kind == "array" and (r.row is None or r.row != ()):
                    tok = frozenset([("row", l.id, sym(IOTA))])
                    body = self.mapleaf(lambda x: Num(x.p, x.shape if x.shape is not None else r.row, tok, r.dt) if isinstance(x, Num) else x, body)
                elif r.kind == "array":
                    body = self.mapleaf(lambda x: Num(x.p, (), frozenset(), r.dt) if isinstance(x, Num) else x, body)
                return Seq(r.n, body, r.kind, frozenset([("arr", l.id)]), r.dt)
            if isinstance(r, ListR):
                s = self.list_seq(r)
                if s is None:
                    return Unk("list with unknown parts %r" % (r.segs,))
                return s
            if isinstance(r, IterR):
                p = r.pos
                if isinstance(p, IntL) and isinstance(r.seq, Seq):
                    if p.a == Aff(0):
                        return r.seq
                    return Seq(r.seq.n - p.a, subst(r.seq.body, {IOTA: sym(IOTA) + p.a}), "list")
            if isinstance(r, GenR):
                return self.as_seq(self.materialise(l, node), node)
            if isinstance(r, DictR) and r.ext is None and "**" not in r.items:
                return self.list_seq(ListR([("one", k) for k in r.items], TRUE))
            return None
        if isinstance(l, Tup):
            return self.list_seq(ListR([("one", x) for x in l.xs], TRUE))
        if isinstance(l, (Op, Unk)):
            return l
        if isinstance(l, Num) and l.shape is not None and len(l.shape) >= 1:
            n = aff(l.shape[0])
            return Seq(n, Num(P_let(Let("np", ("idx", l.p, sym(IOTA)), False, False, l.shape[1:])), l.shape[1:], l.owner), "array", l.owner)
        return None

    # ---- items ---------------------------------------------------------------------------
    def getitem(self, o, i, node):
        return self.ap(lambda l, ix: self.getitem_leaf(l, ix, node), o, i)

    def getitem_leaf(self, l, i, node):
        if isinstance(l, Unk):
            return l
        if isinstance(i, Unk):
            return i
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, DictR):
                k = self.const_key(i)
                if k is not None and k in r.items:
                    has = npmodel.dict_has(r, k) if r.ext is None else TRUE
                    if has != TRUE:
                        g = b_and(self.g, cube_guard(self.cube0)) if CUBE[self.cube0:] else self.g
                        if b_and(g, b_not(has)) != FALSE:
                            self.ap(lambda c: NONE if c == TRUE else self.exc("KeyError", repr(k), node), has)
                        return ite(has, r.items[k], BOT)
                    return r.items[k]
                if r.ext is not None:
                    return Op(("item", r.ext, npmodel.keyof(i)))
                if "**" in r.items:
                    return r.items["**"]
                if k is None:
                    return self.unk("dictionary lookup with computed key", node)
                return self.exc("KeyError", repr(k), node)
            if isinstance(r, InstR):
                return self.call(self.attr(l, "__getitem__", node), [i], {}, node)
            if isinstance(r, ListR) and isinstance(i, IntL) and i.a.is_const() and all(s[0] == "one" for s in r.segs):
                k = i.a.c
                if -len(r.segs) <= k < len(r.segs):
                    return r.segs[k][1]
                return self.exc("IndexError", "list index", node)
            if isinstance(r, ListR) and isinstance(i, IntL) and i.a == Aff(-1) and r.segs:
                s = r.segs[-1]
                if s[0] == "one":
                    return s[1]
            s = self.as_seq(l, node)
            if s is None:
                return self.unk("indexing %s" % type(r).__name__, node)
            return self.seq_item(s, i, node)
        if isinstance(l, Tup):
            if isinstance(i, IntL) and i.a.is_const():
                k = i.a.c
                if -len(l.xs) <= k < len(l.xs):
                    return l.xs[k]
                return self.exc("IndexError", "tuple index", node)
            if isinstance(i, SliceL):
                p = npmodel.slice_parts(i, Aff(len(l.xs)))
                if p and p[0].is_const() and p[1].is_const():
                    a, b, s = p[0].c, p[1].c, p[2]
                    return Tup(l.xs[a: (b if b >= 0 else None): s])
            s = self.as_seq(l, node)
            return self.seq_item(s, i, node)
        if isinstance(l, Seq):
            return self.seq_item(l, i, node)
        if isinstance(l, Num):
            return npmodel.num_item(self, l, i, node)
        if isinstance(l, Op):
            return Op(("item", l.t, npmodel.keyof(i)))
        if isinstance(l, C) and isinstance(l.v, str) or isinstance(l, StrL):
            return Op(("item", npmodel.keyof(l), npmodel.keyof(i)))
        if isinstance(l, Fun):
            return l  # typing subscripts
        if isinstance(l, C) and l.v is None:
            return self.exc("TypeError", "None is not subscriptable", node)
        if isinstance(l, BArr):
            return BArr(("op", "idx", l.t, npmodel.keyof(i)))
        return self.unk("indexing %r" % (l,), node)

    def seq_item(self, s, i, node):
        if isinstance(s, (Op, Unk)):
            return s if isinstance(s, Unk) else Op(("item", s.t, npmodel.keyof(i)))
        if isinstance(i, IntL):
            a = i.a
            h = hi(a)
            if h is not None and h < 0:
                a = a + s.n
            else:
                l = lo(a)
                if l is None or l < 0:
                    # sign not known: be explicit about it
                    neg = b_not(atom_v(("ge0", a)))
                    if neg != FALSE:
                        return ite(neg, subst(s.body, {IOTA: a + s.n}), subst(s.body, {IOTA: a}))
            self.past_end(s.n, a, node)
            return self.elem_at(s, a)
        if isinstance(i, SliceL):
            p = npmodel.slice_parts(i, s.n)
            if p is None:
                v = npmodel.slice_cases(i, s)
                return v if v is not None else self.unk("slice", node)
            a, b, st = p
            if st == 1:
                return Seq(b - a, subst(s.body, {IOTA: sym(IOTA) + a}), s.kind, s.owner, s.dt)
            if st == -1:
                return Seq(a - b, subst(s.body, {IOTA: a - sym(IOTA)}), s.kind, s.owner, s.dt)
            return self.unk("strided slice", node)
        if isinstance(i, C) and i.v is Ellipsis:
            return s
        if isinstance(i, C) and i.v is None:
            return Seq(Aff(1), s, s.kind, s.owner)
        if isinstance(i, Tup) and i.xs:
            xs = list(i.xs)
            if is_full_slice(xs[0]) or xs[0] == C(Ellipsis):
                rest = xs[1:]
                if all(is_full_slice(x) or x == C(Ellipsis) for x in rest):
                    return s
                if not rest:
                    return s
                sub = Tup(rest) if len(rest) > 1 else rest[0]
                if xs[0] == C(Ellipsis):
                    sub = Tup([C(Ellipsis)] + rest)
                body = self.ap(lambda b: self.getitem_leaf(b, sub, node) if isinstance(b, (Num, Seq)) else self.unk("item"), s.body)
                return Seq(s.n, body, s.kind, s.owner, s.dt)
            first = self.ap(lambda x: self.seq_item(s, x, node), xs[0])
            rest = xs[1:]
            if all(is_full_slice(x) or x == C(Ellipsis) for x in rest):
                return first
            sub = Tup(rest) if len(rest) > 1 else rest[0]
            if isinstance(xs[0], SliceL):
                return self.ap(lambda q: Seq(q.n, self.ap(lambda b: self.getitem_leaf(b, sub, node), q.body), q.kind, q.owner, q.dt) if isinstance(q, Seq) else q, first)
            return self.getitem(first, sub, node)
        if isinstance(i, BArr) and npmodel.row_mask(i.t):
            # the elements a mask selects: how many there are depends on the data
            self.jn += 1
            n = "%ssel%d" % (self.tag, self.jn)
            set_range(n, Aff(0), s.n)
            return Seq(sym(n), self.unk("index %r" % (i,), node), s.kind, frozenset([("fresh", n)]), s.dt)
        return self.unk("index %r" % (i,), node)

    def past_end(self, n, a, node):
        """Record the IndexError of an index that is too large for some lengths of the inputs."""
        if n is None:
            return
        d = worst(n - 1 - a)
        if d is None or d.c >= 0 and not d.t or not all(re.match(r"x[A-Z]$", s) for s in d.syms()):
            return
        g = b_and(self.g, cube_guard(self.cube0)) if CUBE[self.cube0:] else self.g
        if g == FALSE or any(x[0] in ("ge0", "eq0", "unk") for x in atoms_of(g)):
            return
        self.pending.append((g, "IndexError", node if node is not None else self.node, "index %r of %r elements" % (a, n), False, tuple(self.loops)))

    def elem_at(self, s, a):
        v = subst(s.body, {IOTA: a})

        def own(x):
            if isinstance(x, Num) and any(t[0] == "row" and len(t) == 3 for t in x.owner):
                return Num(x.p, x.shape, frozenset(("row", t[1], a) if t[0] == "row" else t for t in x.owner), x.dt)
            return x

        return self.mapleaf(own, v)

    # ---- attributes ------------------------------------------------------------------------
    def attr(self, o, name, node):
        return self.ap(lambda l: self.attr_leaf(l, name, node), o)

    def class_lookup(self, cid, name, after=None):
        mro = self.classes[cid].mro(self.classes)
        seen = after is None
        for c in mro:
            if not seen:
                if c is self.classes[after]:
                    seen = True
                continue
            v = self.heap[c.env].vars.get(name)
            if v is not None and not isinstance(v, Bot):
                return v, c
        return None, None

    def bind(self, v, selfl, node):
        def f(x):
            if isinstance(x, Fun) and x.kind == "func":
                fi = self.funcs[x.data]
                if fi.kind == "staticmethod":
                    return x
                if fi.kind == "classmethod":
                    cid = self.deref(selfl).cls if isinstance(selfl, Ref) else selfl.data
                    return Fun("bound", (x.data, Fun("class", cid)))
                if fi.kind == "property" and isinstance(selfl, Ref):
                    return self.call_leaf(Fun("bound", (x.data, selfl)), [], {}, node)
                if isinstance(selfl, Ref):
                    return Fun("bound", (x.data, selfl))
            return x

        return self.mapleaf(f, v)

    def attr_leaf(self, l, name, node):
        if isinstance(l, Unk):
            return l
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, InstR):
                self.ev("attrread", (l, name), node)
                if name in r.fields:
                    v = r.fields[name]
                    if not isinstance(v, Bot):
                        return v
                if name == "__class__":
                    return Fun("class", r.cls)
                if name == "__dict__":
                    return Op(("dict-of", l.id))
                v, c = self.class_lookup(r.cls, name)
                if v is not None:
                    if any(isinstance(x, Ref) for x in leaves(v)):
                        self.ev("classattr", (name,), node)
                    return self.bind(v, l, node)
                v, c = self.class_lookup(r.cls, "__getattr__")
                self.exc("AttributeError", name, node)
                return self.unk("missing attribute " + name, node)
            if isinstance(r, ListR):
                return Fun("lmeth", (name, l))
            if isinstance(r, DictR):
                return Fun("dmeth", (name, l))
            if isinstance(r, ArrR):
                return npmodel.arr_attr(self, l, name, node)
            if isinstance(r, (IterR, GenR)):
                return Fun("imeth", (name, l))
        if isinstance(l, Fun):
            if l.kind == "mod":
                return self.modattr(l.data, name)
            if l.kind == "class":
                v, c = self.class_lookup(l.data, name)
                if v is not None:
                    if any(isinstance(x, Ref) for x in leaves(v)):
                        self.ev("classattr", (name,), node)
                    return self.bind(v, l, node)
                if name == "__name__":
                    return C(self.classes[l.data].name)
                return self.unk("class attribute " + name, node)
            if l.kind == "super":
                cid, selfl = l.data
                mycls = self.deref(selfl).cls
                v, c = self.class_lookup(mycls, name, after=cid)
                if v is None:
                    if name == "__init__":
                        return Fun("bi", "noop")
                    return self.unk("super attribute " + name, node)
                return self.bind(v, selfl, node)
            if l.kind in ("np", "ext"):
                return npmodel.ext_attr(self, ("numpy." if l.kind == "np" else "") + l.data, name)
            if l.kind in ("func", "bound"):
                if name in ("__name__", "__qualname__", "__doc__"):
                    return Op(("fnattr", name))
                self.ev("globalread", ("function attribute " + name, None), node)
                return self.unk("function attribute", node)
            if l.kind == "cb":
                return Op(("cbattr", l.data, name))
            if l.kind == "bi":
                return Fun("bi", "%s.%s" % (l.data, name))
        if isinstance(l, (Num, Seq)):
            return npmodel.num_attr(self, l, name, node)
        if isinstance(l, BArr):
            return Fun("bmeth", (name, l))
        if isinstance(l, (StrL,)) or isinstance(l, C) and isinstance(l.v, str):
            return Fun("smeth", (name, l))
        if isinstance(l, Tup):
            if l.names and name in l.names:
                return l.xs[l.names.index(name)]
            return Fun("tmeth", (name, l))
        if isinstance(l, Op):
            return Op(("attr", l.t, name))
        if isinstance(l, C) and l.v is None:
            return self.exc("AttributeError", "None has no attribute " + name, node)
        if isinstance(l, (IntL, C)):
            n = npmodel.to_num_leaf(self, l)
            if isinstance(n, Num):
                return npmodel.num_attr(self, n, name, node)
        return self.unk("attribute %s of %r" % (name, l), node)

    # ---- calls ----------------------------------------------------------------------------
    def call(self, f, args, kw, node):
        gl = leaf_gates(f)
        if len(gl) == 1:
            return self.call_leaf(gl[0][0], args, kw, node)
        g0 = self.g
        res, gout = BOT, FALSE
        for l, g in gl:
            self.g = b_and(g0, g)
            if self.g == FALSE:
                continue
            r = self.call_leaf(l, args, kw, node)
            res = ite(self.g, r, res)
            gout = b_or(gout, self.g)
        self.g = gout
        return res

    def call_leaf(self, f, args, kw, node):
        if isinstance(f, Unk):
            self.ev("unkcall", f.why, node)
            return f
        if isinstance(f, Op):
            self.ev("opcall", (f.t, tuple(args), tuple(sorted(kw.items()))), node)
            return self.opcall(f.t, args, kw)
        if isinstance(f, Ref) and isinstance(self.deref(f), InstR):
            return self.call(self.attr(f, "__call__", node), args, kw, node)
        if not isinstance(f, Fun):
            if isinstance(f, Bot):
                return BOT
            self.exc("TypeError", "%r is not callable" % (f,), node)
            return self.unk("call of %r" % (f,), node)
        k = f.kind
        if k == "func":
            return self.call_func(f.data, args, kw, node)
        if k == "bound":
            return self.call_func(f.data[0], [f.data[1]] + list(args), kw, node)
        if k == "class":
            return self.instantiate(f.data, args, kw, node)
        if k == "cb":
            return self.callback(f.data, args, kw, node)
        if k == "partial":
            fl, a, kws = f.data
            d = dict(kws)
            d.update(kw)
            return self.call(fl, list(a) + list(args), d, node)
        return npmodel.call(self, f, args, kw, node)

    def opcall(self, t, args, kw):
        keys = [npmodel.keyofv(a) for a in args] + [(k, npmodel.keyofv(v)) for k, v in sorted(kw.items())]
        return _hoist(tuple(keys), lambda xs: Op(("call", t) + tuple(npmodel.unk(x) for x in xs)))

    def callback(self, name, args, kw, node):
        def num(l):
            return npmodel.to_num_leaf(self, l) if isinstance(l, C) and isinstance(l.v, float) else l

        args = [self.mapleaf(num, a) for a in args]
        self.ev("callback", (name, tuple(args), tuple(sorted(kw.items()))), node)
        if name in self.cbmodel:
            return self.cbmodel[name](self, args, kw)
        own = {("cb", name)}
        for a in args:
            for l in leaves(a):
                if isinstance(l, (Num, Seq)):
                    own |= set(l.owner)
        shape = self.cbshape.get(name)
        keys = [npmodel.keyofv(a) for a in args] + [(k, npmodel.keyofv(v)) for k, v in sorted(kw.items())]
        return _hoist(tuple(keys), lambda xs: Num(P_let(Let("app", (name,) + tuple(npmodel.unk(x) for x in xs), False, False, shape)), shape, frozenset(own) if shape != () else frozenset(), ("in", name)))

    def instantiate(self, cid, args, kw, node):
        ci = self.classes[cid]
        mro = ci.mro(self.classes)
        nt = next((c.namedtuple for c in mro if c.namedtuple), None)
        if nt:
            vals = list(args) + [None] * (len(nt) - len(args))
            for k, v in kw.items():
                vals[nt.index(k)] = v
            for i, v in enumerate(vals):
                if v is None:
                    vals[i] = self.heap[ci.env].vars.get(nt[i], BOT)
            return Tup(vals, tuple(nt))
        ref = self.new(InstR(cid, {}, self.g, ci.name))
        init, c = self.class_lookup(cid, "__init__")
        if init is not None:
            self.call(self.bind(init, ref, node), args, kw, node)
        elif any(c.dataclass for c in mro):
            names = []
            for c in reversed(mro):
                names += [n for n in getattr(c, "fieldnames", []) if n not in names]
            vals = dict(zip(names, args))
            vals.update(kw)
            r = self.deref(ref)
            for n in names:
                v = vals.get(n)
                if v is None:
                    v, _ = self.class_lookup(cid, n)
                    if isinstance(v, Fun) and v.kind == "dcfield":
                        v = self.call(v.data, [], {}, node)
                r = r.with_(n, v if v is not None else BOT)
            self.heap[ref.id] = r
            pi, _ = self.class_lookup(cid, "__post_init__")
            if pi is not None:
                self.call(self.bind(pi, ref, node), [], {}, node)
        elif any(e.split(".")[-1] in ("Exception", "ValueError", "RuntimeError") for c in mro for e in c.extbases):
            return Op(("exception", ci.name))
        return ref

    def bind_args(self, fi, args, kw, node):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        out = {}
        kw = dict(kw)
        if any(x is STAR for x in args):
            raise Unsupported(node, "call with unknown star arguments")
        for n, v in zip(names, args):
            out[n] = v
        extra = list(args[len(names):])
        if extra:
            if a.vararg is None:
                self.exc("TypeError", "too many positional arguments for %s" % fi.name, node)
                return None
        if a.vararg is not None:
            out[a.vararg.arg] = Tup(extra)
        konly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        for k in list(kw):
            if k in names and k not in posonly or k in konly:
                if k in out:
                    self.exc("TypeError", "multiple values for %s of %s" % (k, fi.name), node)
                    return None
                out[k] = kw.pop(k)
        if kw:
            if a.kwarg is None:
                self.exc("TypeError", "unexpected keyword %s for %s" % (sorted(kw)[0], fi.name), node)
                return None
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.new(DictR({C(k): v for k, v in kw.items()}, self.g))
        nd = len(fi.defaults)
        for i, n in enumerate(names):
            if n not in out:
                di = i - (len(names) - nd)
                if di >= 0:
                    out[n] = fi.defaults[di]
                else:
                    self.exc("TypeError", "missing argument %s of %s" % (n, fi.name), node)
                    return None
        for n, d in zip(konly, fi.kwdefaults):
            if n not in out:
                if d is None:
                    self.exc("TypeError", "missing keyword argument %s of %s" % (n, fi.name), node)
                    return None
                out[n] = d
        return out

    def call_func(self, fid, args, kw, node):
        fi = self.funcs[fid]
        if len(self.frames) > MAXDEPTH or sum(1 for f in self.frames if f.get("fid") == fid) > 3:
            raise Unsupported(node, "recursion in %s" % fi.name)
        hk = self.hook.get(fi.name)
        if hk is not None:
            r = hk(self, fi, args, kw, node)
            if r is not None:
                return r
        b = self.bind_args(fi, args, kw, node)
        if b is None:
            return BOT
        self.analysed.add((fi.mod.name, qual(self, fi), getattr(fi.node, "lineno", 0)))
        env = self.new(EnvR(b, fi.env, self.g)).id
        if fi.isgen:
            return self.new(GenR(fid, env, self.g, node))
        sv_node = self.node
        if not isinstance(fi.node, ast.Lambda):
            self.ev("enter", (fi.mod.name, fi.name), node)
        fr = dict(env=env, name=qual(self, fi), ret=BOT, retg=FALSE, mod=fi.mod, cls=fi.cls, absloop=0, fid=fid, shared=False)
        sv_shared = self.shared
        self.shared = False
        self.frames.append(fr)
        try:
            if isinstance(fi.node, ast.Lambda):
                return self.eval(fi.node.body)
            self.block(fi.node.body)
        finally:
            self.frames.pop()
            self.shared = sv_shared
            self.node = sv_node
        ret = fr["ret"]
        if self.g != FALSE:
            ret = ite(self.g, NONE, ret)
        self.g = b_or(fr["retg"], self.g)
        return ret

    # ---- expressions --------------------------------------------------------------------------
    def eval(self, e):
        sv = self.node
        if hasattr(e, "lineno"):
            self.node = e
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported(e, "expression " + type(e).__name__)
        try:
            return f(e)
        finally:
            self.node = sv

    def e_Constant(self, e):
        v = e.value
        if isinstance(v, bool) or v is None or v is Ellipsis:
            return C(v)
        if isinstance(v, int):
            return IntL(Aff(v))
        return C(v)

    def e_Name(self, e):
        return self.name(e.id, e)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.setname(e.target.id, v)
        return v

    def e_Attribute(self, e):
        return self.attr(self.eval(e.value), self.mangle(e.attr), e)

    def e_Subscript(self, e):
        return self.getitem(self.eval(e.value), self.eval(e.slice), e)

    def e_Slice(self, e):
        return SliceL(*[self.eval(x) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    v = self.eval(x.value)
                    it = self.static_items(v) if not isinstance(v, Node) else None
                    if it is None:
                        raise Unsupported(e, "starred tuple")
                    out += it
                else:
                    out.append(self.eval(x))
            return Tup(out)
        return Tup([self.eval(x) for x in e.elts])

    def e_List(self, e):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value)
                it = self.static_items(v) if not isinstance(v, Node) else None
                if it is not None:
                    segs += [("one", y) for y in it]
                else:
                    s = self.as_seq(v, e)
                    segs.append(("run", s.n, s.body) if isinstance(s, Seq) else ("opaque", "star"))
            else:
                segs.append(("one", self.eval(x)))
        return self.new(ListR(segs, self.g, self.shared))

    def e_Set(self, e):
        return Op(("set",) + tuple(npmodel.keyofv(self.eval(x)) for x in e.elts))

    def e_Dict(self, e):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v)
                if isinstance(src, Ref) and isinstance(self.deref(src), DictR) and self.deref(src).ext is None:
                    d.update(self.deref(src).items)
                    continue
                raise Unsupported(e, "dict unpacking")
            kk = self.const_key(self.eval(k))
            if kk is None:
                d["**"] = self.unk("computed key", e)
                self.eval(v)
            else:
                d[kk] = self.eval(v)
        return self.new(DictR(d, self.g, self.shared))

    def e_Lambda(self, e):
        return self.mkfunc(e, "<lambda>")

    def e_IfExp(self, e):
        c = self.truth(self.eval(e.test))
        g0 = self.g
        self.g = b_and(g0, c)
        a = self.eval(e.body) if self.g != FALSE else BOT
        g1 = self.g
        self.g = b_and(g0, b_not(c))
        b = self.eval(e.orelse) if self.g != FALSE else BOT
        self.g = b_or(g1, self.g)
        return ite(c, a, b)

    def e_BoolOp(self, e):
        isor = isinstance(e.op, ast.Or)
        v = self.eval(e.values[0])
        done = FALSE  # gate under which evaluation has stopped
        for x in e.values[1:]:
            t = self.truth(v)
            stop = t if isor else b_not(t)
            g0 = self.g
            self.g = b_and(g0, b_not(stop))
            if self.g == FALSE:
                self.g = g0
                return v
            w = self.eval(x)
            self.g = b_or(b_and(g0, stop), self.g)
            v = ite(stop, v, w)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == "Not":
            return b_not(self.truth(v))
        if op == "USub":
            return self.ap(lambda l: npmodel.neg(self, l), v)
        if op == "UAdd":
            return v
        if op == "Invert":
            def inv(l):
                if isinstance(l, BArr):
                    return BArr(l.t[1] if l.t[0] == "not" else ("not", l.t))
                if isinstance(l, C) and isinstance(l.v, bool):
                    return C(not l.v)
                return Op(("invert", npmodel.keyof(l)))
            return self.ap(inv, v)
        raise Unsupported(e, "unary " + op)

    def e_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b, e)

    def binop(self, op, a, b, node):
        return self.ap(lambda x, y: npmodel.binop(self, op, x, y, node), a, b)

    def e_Compare(self, e):
        left = self.eval(e.left)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c)
            r = self.compare(type(op).__name__, left, right, e)
            res = r if res is None else self.and_vals(res, r)
            left = right
        return res

    def and_vals(self, a, b):
        return b_and(self.truth(a), self.truth(b))

    def compare(self, op, a, b, node):
        return self.ap(lambda x, y: npmodel.compare(self, op, x, y, node), a, b)

    def truth(self, v):
        return self.ap(self.truth_leaf, v)

    def truth_leaf(self, l):
        if isinstance(l, C):
            return TRUE if l.v else FALSE
        if isinstance(l, IntL):
            return b_not(atom_v(("eq0", l.a)))
        if isinstance(l, BArr):
            return all_atom(l.t)
        if isinstance(l, Num):
            if l.p.is_zero():
                return FALSE
            return Node(("truthy", l.p), TRUE, FALSE)
        if isinstance(l, StrL):
            if any(isinstance(f, str) for f in l.fr):
                return TRUE
            if not l.fr:
                return FALSE
            return Node(("truthy", l.fr), TRUE, FALSE)
        if isinstance(l, Tup):
            return TRUE if l.xs else FALSE
        if isinstance(l, Ref):
            r = self.deref(l)
            if isinstance(r, ListR):
                n = self.list_len(r)
                if n is not None:
                    return atom_v(("ge0", n - 1))
                return Node(("unk", "length of list"), TRUE, FALSE)
            if isinstance(r, DictR):
                if r.ext is not None:
                    return Node(("truthy", r.ext), TRUE, FALSE)
                return TRUE if r.items else FALSE
            if isinstance(r, ArrR):
                return Node(("unk", "truth of array"), TRUE, FALSE)
            return TRUE
        if isinstance(l, Seq):
            if l.kind == "list":
                return atom_v(("ge0", l.n - 1))
            return Node(("truthy", npmodel.keyof(l)), TRUE, FALSE)
        if isinstance(l, Op):
            return Node(("truthy", l.t), TRUE, FALSE)
        if isinstance(l, Fun):
            return TRUE
        return Node(("unk", l.why if isinstance(l, Unk) else repr(l)), TRUE, FALSE)

    def e_Call(self, e):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            fr = self.frames[-1]
            fi = self.funcs[fr["fid"]]
            a0 = (fi.node.args.posonlyargs + fi.node.args.args)[0].arg
            selfl = self.heap[fr["env"]].vars[a0]
            return Fun("super", (fi.cls, selfl))
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                it = self.static_items(v) if not isinstance(v, Node) else None
                if it is None:
                    args.append(("*", v))
                else:
                    args += it
            else:
                args.append(self.eval(a))
        if any(isinstance(a, tuple) for a in args):
            raise Unsupported(e, "star arguments of unknown length")
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, Ref) and isinstance(self.deref(v), DictR) and self.deref(v).ext is None and "**" not in self.deref(v).items:
                    for kk, vv in self.deref(v).items.items():
                        if isinstance(kk, C):
                            kw[kk.v] = vv
                        else:
                            raise Unsupported(e, "keyword unpacking")
                else:
                    raise Unsupported(e, "keyword unpacking")
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, e)

    def e_Starred(self, e):
        raise Unsupported(e, "starred expression")

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.eval(v.value)
                spec = None
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                conv = v.conversion
                parts.append(self.ap(lambda l, s: npmodel.fmt(self, l, s, conv), x, spec if spec is not None else C("")))
        return self.concat(parts)

    def concat(self, parts):
        acc = StrL(())
        for p in parts:
            acc = self.ap(lambda a, b: npmodel.strcat(a, b), acc, p)
        return acc

    def comp(self, e, kind):
        fr = self.frames[-1]
        eid = self.new(EnvR({}, fr["env"] if self.heap[fr["env"]].cls is None else self.heap[fr["env"]].parent, self.g)).id
        sub = dict(fr)
        sub.update(env=eid, absloop=0, ctl=[], loopret=[], ret=BOT, retg=FALSE)
        out = self.new(ListR((), self.g, False))
        first = self.eval(e.generators[0].iter)
        self.frames.append(sub)

        def gen(i):
            if i == len(e.generators):
                if kind == "dict":
                    self.list_append(out, Tup([self.eval(e.key), self.eval(e.value)]), e)
                else:
                    self.list_append(out, self.eval(e.elt), e)
                return
            g = e.generators[i]
            it = first if i == 0 else self.eval(g.iter)

            def body():
                sv = self.g
                for c in g.ifs:
                    t = self.truth(self.eval(c))
                    self.g = b_and(self.g, t)
                if self.g != FALSE:
                    gen(i + 1)
                if g.ifs:
                    self.g = sv

            self.iterate(it, lambda v: self.assign(g.target, v), [], e, bodyfn=body)

        try:
            gen(0)
        finally:
            self.frames.pop()
        return out

    def e_ListComp(self, e):
        return self.comp(e, "list")

    def e_GeneratorExp(self, e):
        return self.comp(e, "list")

    def e_SetComp(self, e):
        r = self.comp(e, "list")
        s = self.as_seq(r, e)
        return Op(("setof", npmodel.keyof(s) if isinstance(s, Seq) else ("segs", repr(self.deref(r).segs))))

    def e_DictComp(self, e):
        r = self.comp(e, "dict")
        rec = self.deref(r)
        if all(s[0] == "one" for s in rec.segs):
            d = {}
            for s in rec.segs:
                for l in leaves(s[1]):
                    k = self.const_key(l.xs[0])
                    if k is None:
                        return self.new(DictR({"**": self.unk("computed key", e)}, self.g))
                    d[k] = l.xs[1]
            return self.new(DictR(d, self.g))
        return self.new(DictR({"**": self.unk("dict comprehension", e)}, self.g))

    def e_Yield(self, e):
        v = self.eval(e.value) if e.value is not None else NONE
        for fr in reversed(self.frames):
            if fr.get("yielder"):
                if fr is not self.frames[-1]:
                    raise Unsupported(e, "yield")
                return fr["yielder"](v)
        raise Unsupported(e, "yield outside an analysed generator")

    def e_YieldFrom(self, e):
        it = self.eval(e.value)
        fr = self.frames[-1]
        y = fr.get("yielder")
        if y is None:
            raise Unsupported(e, "yield from")
        self.iterate(it, y, [], e)
        return NONE


STAR = object()


def carries(x, j):
    """Does the term contain a loop-carried letter of the loop with index j?"""
    if isinstance(x, Poly):
        return any(carries(l, j) for w, c in x.m for l in w)
    if isinstance(x, Let):
        if x.op == "rec" and any(isinstance(a, Aff) and j in a.syms() for a in x.args):
            return True
        return any(carries(a, j) for a in x.args)
    if isinstance(x, tuple):
        return any(carries(a, j) for a in x)
    if isinstance(x, Num):
        return carries(x.p, j)
    if isinstance(x, Node):
        return carries(x.atom, j) or carries(x.hi, j) or carries(x.lo, j)
    if isinstance(x, Tup):
        return any(carries(a, j) for a in x.xs)
    if isinstance(x, Seq):
        return carries(x.body, j)
    if isinstance(x, (Op, BArr)):
        return carries(x.t, j)
    return False


def strip(heads):
    return {k: {a: b for a, b in h.items() if a != "exitf"} for k, h in heads.items()}


def leaf_gates(v):
    """[(leaf, gate)] with one entry per distinct leaf."""
    if not isinstance(v, Node):
        return [] if isinstance(v, Bot) else [(v, TRUE)]
    pos, out, seen = {}, [], set()

    def walk(x):
        if isinstance(x, Node):
            if id(x) not in seen:
                seen.add(id(x))
                walk(x.hi)
                walk(x.lo)
        elif not isinstance(x, Bot):
            i = pos.get(x)
            if i is None:
                pos[x] = len(out)
                out.append(x)
            else:
                out[i] = merge_same(out[i], x)

    walk(v)
    if len(out) == 1:
        return [(out[0], TRUE)]

    def gate(x, i, memo):
        if not isinstance(x, Node):
            return TRUE if not isinstance(x, Bot) and pos[x] == i else FALSE
        r = memo.get(id(x))
        if r is None:
            h, l = gate(x.hi, i, memo), gate(x.lo, i, memo)
            r = memo[id(x)] = h if h == l else Node(x.atom, h, l)
        return r

    return [(l, gate(v, i, {})) for i, l in enumerate(out)]


def is_full_slice(i):
    if isinstance(i, SliceL):
        return i.a == NONE and i.b == NONE and i.s == NONE
    if isinstance(i, C) and i.v is Ellipsis:
        return True
    if isinstance(i, Tup):
        return bool(i.xs) and all(is_full_slice(x) for x in i.xs)
    return False


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return b + "." + e.attr if b else None
    return None


def handler_types(h):
    if h.type is None:
        return ("BaseException",)
    if isinstance(h.type, ast.Tuple):
        return tuple((dotted(x) or "?").split(".")[-1] for x in h.type.elts)
    return ((dotted(h.type) or "?").split(".")[-1],)


def handler_matches(h, etype):
    ts = handler_types(h)
    if "BaseException" in ts or "Exception" in ts:
        return True
    if etype in ts:
        return True
    sup = {"KeyError": "LookupError", "IndexError": "LookupError", "LinAlgError": "ValueError", "FileNotFoundError": "OSError"}
    return sup.get(etype) in ts


def guard_live(g):
    return g != FALSE


def reraises(h):
    """Handler body ends in a raise on every path (syntactic)."""

    def ends(body):
        last = body[-1] if body else None
        if isinstance(last, ast.If):
            return ends(last.body) and ends(last.orelse)
        if isinstance(last, ast.With):
            return ends(last.body)
        return isinstance(last, ast.Raise)

    def escapes(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return isinstance(n, (ast.Return, ast.Break, ast.Continue)) or any(escapes(c) for c in ast.iter_child_nodes(n))

    return ends(h.body) and not any(escapes(x) for x in h.body)


def assigned_names(st):
    out = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.append(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.append(n.name)
        elif isinstance(n, ast.alias):
            out.append((n.asname or n.name).split(".")[0])
    return out


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def qual(it, fi):
    return (it.classes[fi.cls].name + "." if fi.cls else "") + fi.name
