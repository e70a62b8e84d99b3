"""Equality of value graphs with recurrences.

Two analysed programs (or one program and the reference semantics) are compared by partition
refinement over their recurrence variables: variables are paired when their initial values have
the same normal form, and a pairing survives when the recurrence steps have the same normal form
under the pairing.  Nothing is executed; every step is a comparison of normal forms.
"""
import re

from .terms import *  # noqa: F401,F403
from .terms import Rebuild, RANGES, BUDGET, Budget
from . import npmodel
from .interp import ArrR, ListR, UNROLL, where


class Undecided(Exception):
    pass


class Diff:
    __slots__ = ("path", "conds", "a", "b")

    def __init__(self, path, conds, a, b):
        self.path, self.conds, self.a, self.b = path, conds, a, b

    def text(self, fa="found", fb="expected", width=900):
        def cut(x):
            s = repr(x)
            return s if len(s) <= width else s[:width] + " ... (%d chars)" % len(s)

        c = " and ".join(("%s" if v else "not (%s)") % show_atom(a) for a, v in self.conds)
        return "at %s%s:\n      %s: %s\n      %s: %s" % (self.path, " when " + c if c else "", fa, cut(self.a), fb, cut(self.b))


def has_unk(v):
    """Reason why a value is not fully known, or None."""
    if isinstance(v, Node):
        return has_unk(v.hi) or has_unk(v.lo) or (("condition %s" % show_atom(v.atom)) if v.atom[0] == "unk" else None)
    if isinstance(v, Unk):
        return v.why
    if isinstance(v, Tup):
        for x in v.xs:
            r = has_unk(x)
            if r:
                return r
    if isinstance(v, Seq):
        return has_unk(v.body)
    if isinstance(v, Num):
        for l in v.p.letters():
            r = let_unk(l)
            if r:
                return r
    if isinstance(v, Op):
        return key_unk(v.t)
    if isinstance(v, BArr):
        return key_unk(v.t)
    return None


def let_unk(l):
    for a in l.args:
        r = key_unk(a)
        if r:
            return r
    return None


def key_unk(a):
    if isinstance(a, Let):
        return let_unk(a)
    if isinstance(a, Poly):
        for l in a.letters():
            r = let_unk(l)
            if r:
                return r
    if isinstance(a, tuple):
        if a and a[0] == "unk":
            return str(a[1:])
        for x in a:
            r = key_unk(x)
            if r:
                return r
    if isinstance(a, (Leaf, Node)):
        return has_unk(a)
    return None


def rec_letters(v, out=None):
    """All recurrence letters in a value (with their index tuples)."""
    if out is None:
        out = set()
    if isinstance(v, Node):
        for x in v.atom[1:]:
            _rk(x, out)
        rec_letters(v.hi, out)
        rec_letters(v.lo, out)
    elif isinstance(v, Num):
        _rk(v.p, out)
    elif isinstance(v, Tup):
        for x in v.xs:
            rec_letters(x, out)
    elif isinstance(v, Seq):
        rec_letters(v.body, out)
    elif isinstance(v, (Op, BArr)):
        _rk(v.t, out)
    elif isinstance(v, StrL):
        _rk(v.fr, out)
    return out


def _rk(a, out):
    if isinstance(a, Poly):
        for l in a.letters():
            _rk(l, out)
    elif isinstance(a, Let):
        if a.op == "rec":
            out.add((a.args[0],) + a.args[1:])
        for x in a.args:
            _rk(x, out)
    elif isinstance(a, tuple):
        for x in a:
            _rk(x, out)
    elif isinstance(a, (Leaf, Node)):
        rec_letters(a, out)


def loopnum(j):
    return int(j.rsplit("j", 1)[1])


class Ranges:
    """Temporarily replace symbol ranges."""

    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = {s: RANGES.get(s) for s in self.kw}
        for s, r in self.kw.items():
            RANGES[s] = r

    def __exit__(self, *a):
        for s, r in self.old.items():
            if r is None:
                RANGES.pop(s, None)
            else:
                RANGES[s] = r


class System:
    fixed = {}
    """Recurrences of all compared programs with symmetry facts and a letter mapping."""

    def __init__(self, *its):
        self.recs = {}
        self.depth = {}
        for it in its:
            self.recs.update(it.recs)
        self.sym = set()
        self.map = {}
        self.closed = {}
        self.expanding = 0

    # -- canonical rewriting
    def canon(self, v, idx=None):
        return Canon(self, idx or {}).value(v)

    def at(self, rid, c):
        """Closed form of a recurrence variable at a constant index."""
        k = (rid, c, len(self.map), len(self.sym), RANGES.get("N"))
        r = self.closed.get(k)
        if r is None:
            d = self.recs[rid]
            r = self.closed[k] = self.canon(d.value, {d.j: Aff(c)})
        return r

    # -- reachability
    def reach(self, vals):
        seen = set()
        todo = list(vals)
        while todo:
            v = todo.pop()
            for t in rec_letters(v):
                if t[0] not in seen and t[0] in self.recs:
                    seen.add(t[0])
                    todo.append(self.recs[t[0]].value)
        return seen

    def order(self, rids):
        return sorted(rids, key=lambda r: (loopnum(self.recs[r].j), r))

    # -- symmetry
    def find_sym(self, rids):
        cand = set()
        for r in rids:
            d = self.recs[r]
            sh = None
            for l in leaves(d.value):
                if isinstance(l, Num) and l.shape is not None:
                    sh = l.shape
            if sh is not None and len(sh) == 2 and sh[0] == sh[1]:
                cand.add(r)
        self.sym |= cand
        while True:
            bad = []
            for r in self.order(cand):
                v = self.canon(self.recs[r].value)
                if not self.is_sym(v):
                    bad.append(r)
            if not bad:
                break
            self.sym -= set(bad)
            cand -= set(bad)
            self.closed.clear()

    def is_sym(self, v):
        for l in leaves(v):
            if isinstance(l, Num) and P_T(l.p) != l.p:
                return False
            if not isinstance(l, (Num, Bot)):
                return False
        return True

    # -- merging and mapping
    def init_value(self, rid, c=0):
        d = self.recs[rid]
        return self.canon(d.value, {d.j: Aff(c)})

    def step_value(self, rid, j, off):
        d = self.recs[rid]
        return self.canon(d.value, {d.j: sym(j) + off})

    def unfold(self, v, j):
        """Replace recurrences at the current iteration of loop j by their step."""
        d = Unfold(self, j)
        r = d.value(v)
        return r, d.n

    def match(self, prids, rrids, log=None):
        """Map recurrences `prids` onto `rrids` (may be the same set: internal merging).

        Returns the first-round step differences of variables whose initial values matched.
        """
        diffs = {}
        same_set = prids is rrids
        groups = {}
        for r in self.order(prids):
            groups.setdefault(self.recs[r].j, []).append(r)
        rlist = self.order(rrids)
        for j, rs in sorted(groups.items(), key=lambda x: loopnum(x[0])):
            cands = {}
            for r in rs:
                if len(self.recs[r].outer):
                    continue
                cs = []
                for q in rlist:
                    if q in self.map or (same_set and (q == r or loopnum(self.recs[q].j) > loopnum(j) or (self.recs[q].j == j and rlist.index(q) >= rlist.index(r)))):
                        continue
                    dr, dq = self.recs[r], self.recs[q]
                    if dq.outer:
                        continue
                    dd = dr.T - dq.T
                    for off in (0, 1, -1):
                        if not (dd.is_const() and dd.c == off):
                            # equal trip counts are needed up to the offset
                            continue
                        with Ranges(**{dr.j: (Aff(0), dr.T - 1), dq.j: (Aff(0), dq.T - 1)}):
                            a = self.init_value(r, max(off, 0))
                            b = self.init_value(q, max(-off, 0))
                        if not self.same(a, b, "init", limit=1):
                            cs.append((q, off))
                if cs:
                    cands[r] = cs
            first = True
            while True:
                for r in rs:
                    self.map.pop(r, None)
                for r, cs in cands.items():
                    if cs:
                        self.map[r] = cs[0]
                self.closed.clear()
                bad = []
                for r in rs:
                    if r not in self.map:
                        continue
                    q, off = self.map[r]
                    dq = self.recs[q]
                    dr = self.recs[r]
                    lo_ = Aff(1 + max(-off, 0))
                    with Ranges(**{dq.j: (lo_, dq.T - 1), dr.j: (lo_ + off, dr.T - 1)}):
                        a = self.step_value(r, dq.j, off)
                        b = self.step_value(q, dq.j, 0)
                        ds = self.same(a, b, "step")
                        if ds:
                            # a value taken over from the same iteration of another loop
                            try:
                                (ua, na), (ub, nb) = self.unfold(a, dq.j), self.unfold(b, dq.j)
                                if na or nb:
                                    a, b = ua, ub
                                    ds = self.same(a, b, "step")
                            except Budget:
                                pass
                    if ds:
                        bad.append(r)
                        if first and r not in diffs:
                            # equal on some branch: the two variables are counterparts
                            kin = self.agree(a, b)
                            with Ranges(**{dq.j: (lo_, dq.T - 2), dr.j: (lo_ + off, dr.T - 2)}):
                                inner = self.same(a, b, "step") if kin else []
                            diffs[r] = (q, ds, inner, kin)
                first = False
                if not bad:
                    break
                for r in bad:
                    cands[r].pop(0)
        return diffs

    def agree(self, a, b, depth=0):
        """Is there a branch on which the two values are equal?"""
        if a == b:
            return True
        t = None
        for x in (a, b):
            if isinstance(x, Node) and (t is None or akey(x.atom) < akey(t)):
                t = x.atom
        if t is None or depth > 12:
            return False
        return any(self.agree(restrict(a, t, v), restrict(b, t, v), depth + 1) for v in (True, False))

    # -- comparison of canonical values
    def same(self, a, b, path, conds=(), limit=4):
        out = []
        self._same(a, b, path, conds, out, limit)
        return out

    def _same(self, a, b, path, conds, out, limit):
        if len(out) >= limit:
            return
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            self._leaf(a, b, path, conds, out, limit)
            return
        if a == b:
            return
        t = None
        for x in (a, b):
            if isinstance(x, Node) and (t is None or akey(x.atom) < akey(t)):
                t = x.atom
        for val in (True, False):
            with Assume(t, val) as asm:
                if asm.dead:
                    continue
                if asm.idx is not None or asm.tight:
                    x = self.canon(restrict(a, t, val), asm.idx)
                    y = self.canon(restrict(b, t, val), asm.idx)
                else:
                    x, y = restrict(a, t, val), restrict(b, t, val)
                self._same(x, y, path, conds + ((t, val),), out, limit)

    def _leaf(self, a, b, path, conds, out, limit):
        if isinstance(a, Bot) or isinstance(b, Bot):
            return
        if a == b:
            return
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.xs) != len(b.xs):
                out.append(Diff(path + " (number of items)", conds, Aff(len(a.xs)), Aff(len(b.xs))))
                return
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                self._same(x, y, "%s[%d]" % (path, i), conds, out, limit)
            return
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a.n != b.n:
                out.append(Diff(path + " (length)", conds, a.n, b.n))
                return
            with Ranges(**{IOTA: (Aff(0), a.n - 1)}):
                self._same(self.canon(a.body), self.canon(b.body), path + "[i$]", conds, out, limit)
            return
        out.append(Diff(path, conds, a, b))


class Canon(Rebuild):
    def __init__(self, system, idx):
        if system.fixed:
            idx = dict(system.fixed, **(idx or {}))
        Rebuild.__init__(self, idx, self._let)
        self.s = system

    def _let(self, l):
        if l.op != "rec":
            return None
        s = self.s
        rid = l.args[0]
        ix = tuple(a.subst(self.idx) for a in l.args[1:])
        m = s.map.get(rid)
        n = 0
        while m is not None and n < 5:
            q, off = m
            if off and ix[-1].is_const() and ix[-1].c - off < 0:
                break
            rid = q
            ix = ix[:-1] + (ix[-1] - off,)
            m = s.map.get(rid)
            n += 1
        d = s.recs.get(rid)
        if not ix[-1].is_const():
            low = lo(ix[-1])
            if low is not None and low == hi(ix[-1]):
                # the ranges assumed on this path leave one value
                ix = ix[:-1] + (Aff(low),)
        if d is not None and ix[-1].is_const() and 0 <= ix[-1].c <= 3 and not d.outer and s.depth.get(rid, 0) == 0:
            s.depth[rid] = 0
            v = s.at(rid, ix[-1].c)
            if l.tr:
                v = tmap(v)
            return v
        sy = rid in s.sym
        shp = l.shape
        return Num(P_let(Let("rec", (rid,) + ix, l.tr, sy, shp)), shp)

    def leaf(self, v):
        if isinstance(v, Seq):
            idx = {k: a for k, a in self.idx.items() if k != IOTA}
            n = v.n.subst(self.idx) if v.n is not None else None
            old = RANGES.get(IOTA)
            if n is not None:
                RANGES[IOTA] = (Aff(0), n - 1)
            try:
                body = Canon(self.s, idx).value(v.body)
            finally:
                if old is None:
                    RANGES.pop(IOTA, None)
                else:
                    RANGES[IOTA] = old
            return Seq(n, body, v.kind, v.owner, v.dt, v.ext)
        return Rebuild.leaf(self, v)


class Unfold(Rebuild):
    """Recurrence letters at the current iteration of one loop, replaced by what that iteration assigns."""

    def __init__(self, system, j, depth=6):
        Rebuild.__init__(self, {}, self._let)
        self.s, self.j, self.depth, self.n = system, j, depth, 0

    def _let(self, l):
        if l.op != "rec":
            return None
        d = self.s.recs.get(l.args[0])
        if d is None or d.outer or len(l.args) != 2 or l.args[1] != sym(self.j) or self.depth == 0:
            return Num(P_let(l), l.shape)
        self.n += 1
        v = self.s.canon(d.value, {d.j: sym(self.j)})
        u = Unfold(self.s, self.j, self.depth - 1)
        v = u.value(v)
        return tmap(v) if l.tr else v


def tmap(v):
    if isinstance(v, Node):
        return ite(Node(v.atom, TRUE, FALSE), tmap(v.hi), tmap(v.lo))
    if isinstance(v, Num):
        return Num(P_T(v.p), v.shape[::-1] if v.shape else v.shape, v.owner, v.dt)
    return v


class Assume:
    """Scope in which a linear atom is assumed true or false."""

    def __init__(self, atom, val):
        self.atom, self.val = atom, val
        self.idx = None
        self.tight = False
        self.dead = False
        self.undo = []

    def _set(self, s, lo_, hi_):
        self.undo.append((s, RANGES.get(s)))
        RANGES[s] = (lo_, hi_)
        self.tight = True

    def __enter__(self):
        a = self.atom
        if a[0] not in ("eq0", "ge0"):
            return self
        v = atom_v(a)
        if v == TRUE and not self.val or v == FALSE and self.val:
            self.dead = True
            return self
        e = a[1]
        piv = pick(e)
        if a[0] == "eq0":
            if self.val:
                if piv is not None:
                    k = e.coef(piv)
                    rest = e - sym(piv).scale(k)
                    sol = -rest if k == 1 else rest
                    r = RANGES.get(piv)
                    if r is not None:
                        if (r[0] is not None and hi(sol - r[0]) is not None and hi(sol - r[0]) < 0) or (r[1] is not None and hi(r[1] - sol) is not None and hi(r[1] - sol) < 0):
                            self.dead = True
                            return self
                    self.idx = {piv: sol}
                    for s, (lo_, hi_) in list(RANGES.items()):
                        if s == piv:
                            continue
                        l2 = lo_.subst(self.idx) if lo_ is not None else None
                        h2 = hi_.subst(self.idx) if hi_ is not None else None
                        if l2 != lo_ or h2 != hi_:
                            self._set(s, l2, h2)
            else:
                for s, k in e.t:
                    r = RANGES.get(s)
                    if r is None or abs(k) != 1:
                        continue
                    rest = e - sym(s).scale(k)
                    sol = -rest if k == 1 else rest
                    if r[0] is not None and sol == r[0]:
                        self._set(s, r[0] + 1, r[1])
                        break
                    if r[1] is not None and sol == r[1]:
                        self._set(s, r[0], r[1] - 1)
                        break
        else:
            # e >= 0 or e <= -1
            if piv is not None:
                k = e.coef(piv)
                rest = e - sym(piv).scale(k)
                r = RANGES.get(piv) or (None, None)
                if self.val:
                    if k == 1:
                        self._set(piv, -rest, r[1])
                    else:
                        self._set(piv, r[0], rest)
                else:
                    if k == 1:
                        self._set(piv, r[0], -rest - 1)
                    else:
                        self._set(piv, rest + 1, r[1])
        return self

    def __exit__(self, *x):
        for s, r in reversed(self.undo):
            if r is None:
                RANGES.pop(s, None)
            else:
                RANGES[s] = r


def pick(e):
    """Symbol to solve for: the element index first, then loop counters, then the length."""
    best = None
    for s, k in e.t:
        if abs(k) != 1:
            continue
        p = 0 if s == IOTA else (1 if "j" in s and s[-1].isdigit() else 2)
        if best is None or p < best[0]:
            best = (p, s)
    return best[1] if best else None


def open_atom(a):
    """A condition whose truth the analysis does not know to depend on the inputs in the way written."""
    return a[0] == "unk" or any(isinstance(x, Aff) and any(TRIPS.match(s) for s in x.syms()) for x in a[1:])


TRIPS = re.compile(r"T.*j\d+$")


def live_leaves(v, out=None, conditions=False, opened=False):
    """Leaves of a gated value that some assignment of the symbols (within their ranges) selects; with `conditions`,
    together with whether a condition that is not understood leads there."""
    out = [] if out is None else out
    if not isinstance(v, Node):
        out.append((v, opened) if conditions else v)
        return out
    opened = opened or conditions and open_atom(v.atom)
    for val, side in ((True, v.hi), (False, v.lo)):
        with Assume(v.atom, val) as a:
            if a.dead:
                continue
            if a.idx:
                for s, sol in a.idx.items():
                    a._set(s, sol, sol)
                side = subst(side, a.idx)
            else:
                side = subst(side, {IOTA: sym(IOTA)})
            live_leaves(side, out, conditions, opened)
    return out


# ----------------------------------------------------------------------------


def resolve(it, v, depth=0, g=TRUE):
    """Replace heap references by the sequences / tuples they denote (g: condition under which v is reached)."""
    if isinstance(v, Node):
        c = Node(v.atom, TRUE, FALSE)
        return ite(c, resolve(it, v.hi, depth, b_and(g, c)), resolve(it, v.lo, depth, b_and(g, b_not(c))))
    if isinstance(v, Tup):
        return Tup([resolve(it, x, depth + 1, g) for x in v.xs])
    if isinstance(v, Ref):
        r = it.heap[v.id]
        if g != TRUE and isinstance(r, ListR) and it.list_len(r) is None:
            segs = []
            for s in r.segs:
                if s[0] == "alt" and b_and(g, s[1]) == FALSE:
                    continue
                segs += s[2] if s[0] == "alt" and b_and(g, b_not(s[1])) == FALSE else (s,)
            s = it.list_seq(ListR(segs, r.birth, r.shared, r.kind)) or it.as_seq(v, None)
        else:
            s = it.as_seq(v, None)
        if s is None:
            return Unk("object %r" % (it.heap[v.id],))
        return resolve(it, s, depth + 1, g)
    if isinstance(v, Seq) and depth < 6:
        return Seq(v.n, resolve(it, v.body, depth + 1, g), v.kind, v.owner, v.dt, v.ext)
    return v


class Comparison:
    def __init__(self, ita, va, itb, vb, names=None):
        self.a, self.b = resolve(ita, va), resolve(itb, vb)
        if UNROLL[0]:
            # series of one possible length: name their positions from the front
            fixed = {q: Aff(lo(sym(q))) for q in RANGES if (q == "N" or q.endswith(".N")) and lo(sym(q)) == hi(sym(q))}
            self.a, self.b = subst(self.a, fixed), subst(self.b, fixed)
        self.s = System(ita, itb)
        self.ita, self.itb = ita, itb
        s = self.s
        self.ra = s.reach([self.a])
        self.rb_reach = s.reach([self.b])
        self.rb = set(itb.recs)
        self.status, self.diffs, self.why = None, [], None

    def run(self, path="result"):
        s = self.s
        w = has_unk(self.a)
        if w is None:
            for r in self.ra:
                w = has_unk(s.recs[r].value)
                if w:
                    break
        if w:
            self.status, self.why = "undecided", w
            return self
        wb = has_unk(self.b) or next((x for x in (has_unk(s.recs[r].value) for r in self.rb_reach) if x), None)
        if wb:
            self.status, self.why = "undecided", "other side: " + wb
            return self
        s.find_sym(self.ra)
        s.find_sym(self.rb)
        rb = s.order(self.rb)
        s.match(self.rb, self.rb)
        first = s.match(self.ra, self.rb)
        s.closed.clear()
        ca, cb = s.canon(self.a), s.canon(self.b)
        ds = s.same(ca, cb, path)
        if not ds:
            self.status = "equal"
            return self
        # decide between a proved difference and an inconclusive alignment
        self.diffs = ds
        foreign = {t[0] for d in ds for t in rec_letters_any(d.a) if t[0] in self.ra}
        img = self.images()
        lone = {t[0] for d in ds for t in rec_letters_any(d.b) if t[0] in self.rb and t[0] not in img}
        if not foreign and not lone:
            self.status = "different"
            return self
        step = {r: first[r] for r in foreign if r in first and first[r][3]}
        out = []
        for r, (q, dd, inner, kin) in step.items():
            for d in self.clean(r, q, dd, first):
                d.path = "%s, step of %s" % (path, self.name(r))
                out.append(d)
        if out:
            self.status, self.diffs = "different", out
            return self
        # a carried variable that follows its counterpart on one branch and leaves it on another
        for r in sorted(s.reach([Tup([Num(P_let(Let("rec", (x, sym("N"))))) for x in foreign])])):
            dd = self.clean(r, first[r][0], first[r][2], first) if r in first and r not in s.map else []
            if dd:
                for d in dd:
                    d.path = "%s, step of %s" % (path, self.name(r))
                self.status, self.diffs = "different", dd
                return self
        # a recurrence of the program has no counterpart: compare closed forms at both ends
        d2 = self.unrolled(ca, cb, path)
        if d2:
            self.status, self.diffs = "different", d2
            return self
        d2 = self.instances(path)
        if d2:
            self.status, self.diffs = "different", d2
            return self
        self.status, self.why = "undecided", "no alignment of the loops found for %s" % ", ".join(sorted(self.name(r) for r in foreign | lone))
        return self

    def clean(self, r, q, dd, first):
        """Step differences of r and its counterpart q that do not come from other variables wrongly taken for counterparts."""
        wrong = {first[x][0] for x in first if x != r} - {q}
        return [d for d in dd if not any(t[0] in self.ra or t[0] in wrong for t in rec_letters_any(d.a) | rec_letters_any(d.b))]

    def least(self):
        """Differences found where a symbol stands for the least of several lengths are not trusted: its values are not free."""
        if self.status == "different" and npmodel.MINS and any("min(" in repr((d.conds, d.a, d.b)) for d in self.diffs):
            self.status, self.why = "undecided", "the least of several lengths is not known"
        return self

    def images(self):
        """Recurrences of the second program that some recurrence of the first is mapped onto."""
        out = set()
        for r in self.ra:
            n = 0
            while r in self.s.map and n < 5:
                r = self.s.map[r][0]
                n += 1
            out.add(r)
        return out

    def name(self, r):
        d = self.s.recs[r]
        return "%s (loop at %s in %s)" % (r.split(".", 1)[-1].split("#")[0], where(d.node), d.fn)

    def instances(self, path):
        """Compare the closed forms for the shortest series: one or two observations, in this call and in earlier ones."""
        s = self.s
        lens = [q for q in RANGES if q == "N" or q.endswith(".N")]
        used = repr(self.a) + repr(self.b) + "".join(repr(s.recs[r].value) for r in self.ra)
        other = [q for q in lens if q != "N" and q in used]
        plans = [(1, 1), (2, 2)] + ([(2, 1), (1, 2)] if other else [])
        save = BUDGET[0]
        for n, m in plans:
            out = []

            def walk(a, b, path):
                if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
                    for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                        walk(x, y, "%s[%d]" % (path, i))
                    return
                if isinstance(a, Seq) and isinstance(b, Seq) and a.n is not None and b.n is not None:
                    la, lb = lo(a.n), lo(b.n)
                    if la is None or lb is None or la != hi(a.n) or lb != hi(b.n):
                        return
                    if la != lb:
                        out.append(Diff(path + " (length)", (), a.n, b.n))
                        return
                    for c in range(la):
                        one(s.canon(a.body, {IOTA: Aff(c)}), s.canon(b.body, {IOTA: Aff(c)}), "%s[%d]" % (path, c))
                    return
                one(a, b, path)

            def one(x, y, path):
                if any(t[0] in self.ra and t[0] not in s.map for t in rec_letters_any(x)):
                    return
                if any(t[0] in self.rb and t[0] not in img for t in rec_letters_any(y)):
                    return
                if all_known(x):
                    out.extend(s.same(x, y, path))

            BUDGET[0] = 150000
            fixed = {q: (Aff(n), Aff(n)) for q in ("N",)}
            fixed.update({q: (Aff(m), Aff(m)) for q in other})
            try:
                with Ranges(**fixed):
                    s.closed.clear()
                    s.fixed = {q: v[0] for q, v in fixed.items()}
                    walk(s.canon(self.a), s.canon(self.b), "%s with %s" % (path, ", ".join(["%d observation%s" % (n, "s" * (n > 1))] + ["%d in earlier calls" % m] * bool(other))))
            except (Budget, RecursionError):
                out = []
            finally:
                s.closed.clear()
                s.fixed = {}
                BUDGET[0] = save
            if out:
                return out
        return []

    def unrolled(self, ca, cb, path, depth=3):
        """Compare the elements of result sequences at their first and last positions in closed form."""
        out = []
        s = self.s
        img = self.images()

        def walk(a, b, path):
            if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
                for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                    walk(x, y, "%s[%d]" % (path, i))
            elif isinstance(a, Seq) and isinstance(b, Seq) and a.n == b.n:
                for c in range(depth):
                    for off, lab in ((Aff(c), str(c)), (a.n - 1 - c, "-%d" % (c + 1))):
                        with Ranges(N=(Aff(depth + 1), None)):
                            x = s.canon(a.body, {IOTA: off})
                            y = s.canon(b.body, {IOTA: off})
                            x2 = {t[0] for t in rec_letters(x)}
                            if any(t in self.ra and t not in s.map for t in x2):
                                # still depends on an unaligned recurrence
                                continue
                            if any(t[0] in self.rb and t[0] not in img for t in rec_letters_any(y)):
                                continue
                            out.extend(s.same(x, y, "%s[%s]" % (path, lab)))

        save = BUDGET[0]
        for d in range(1, depth + 1):
            BUDGET[0] = 300000
            try:
                del out[:]
                depth = d
                walk(ca, cb, path)
            except Budget:
                break
            finally:
                BUDGET[0] = save
            if out:
                break
        return out


def all_known(x):
    return has_unk(x) is None


def rec_letters_any(x):
    out = set()
    if isinstance(x, (Leaf, Node)):
        rec_letters(x, out)
    return out


def compare(ita, va, itb, vb, path="result"):
    return Comparison(ita, va, itb, vb).run(path).least()
