"""Format model of git and of archive keywords, and evaluation of value graphs in it.

Used only to tell a difference of normal forms that some output of git (or some layout of the source tree) brings out from
one that is an artefact of two spellings of the same function.  The program is not run: what is evaluated are
the terms the analysis derived from its source.
"""
import fnmatch
import posixpath
import re

from .terms import *  # noqa: F401,F403
from .strs import SL, BV, Missing
from .interp import DictR


class Unknown(Exception):
    pass


class World:
    def __init__(self, name, **kw):
        self.name = name
        self.expanded = False
        self.names, self.full, self.cdate = "", "9d" * 20, "2024-03-05 10:11:12 +0100"
        self.nofile = False
        self.path = "/home/u/work/checkout/src/kalmankit/_version.py"
        self.nostart = ()
        self.enoent = True
        self.fails = ()
        self.undecodable = False
        self.environ = {}
        self.tags = []  # (name, annotated, distance[, distance along first parents or None])
        self.hash = "3f2a9c10d4" + "5b" * 15
        self.short = None
        self.dirty = False
        self.branch = "master"
        self.branches = ["master"]
        self.commits = 12
        self.merges = 3
        self.all = 15
        self.date = "2023-11-02 08:09:10 -0500"
        self.adate = "2023-10-31 23:01:02 +0200"
        self.signature = ""
        self.timeout = False
        self.setorder = None  # 0, 1: two of the orders in which a set may be walked
        self.__dict__.update(kw)
        if self.short is None:
            self.short = self.hash[:7]

    def git(self, key):
        """(exit status, output) of one git command."""
        sub, rest = key[0], list(key[1:])
        if any(k == "all" or k == key for k in self.fails):
            return 128, ""
        flags = [r for r in rest if r.startswith("-")]
        pos = [r for r in rest if not r.startswith("-")]
        if sub == "rev-parse":
            if flags == ["--git-dir"] and not pos:
                return 0, ".git\n"
            if flags == ["--is-inside-work-tree"] and not pos:
                return 0, "true\n"
            if pos == ["HEAD"]:
                if flags in ([], ["--verify"], ["-q", "--verify"], ["--quiet", "--verify"]):
                    return 0, self.hash + "\n"
                if flags == ["--short"]:
                    return 0, self.short + "\n"
                if len(flags) == 1 and flags[0].startswith("--short="):
                    return 0, self.hash[: max(int(flags[0][8:]), len(self.short) if len(self.short) > 7 else 4)] + "\n"
                if flags == ["--abbrev-ref"]:
                    return 0, (self.branch or "HEAD") + "\n"
        if sub == "branch":
            if flags == ["--show-current"]:
                return 0, (self.branch + "\n" if self.branch else "")
            if flags == ["--contains"] and pos in ([], ["HEAD"]):
                ls = ["* %s" % self.branch] if self.branch else ["* (HEAD detached at %s)" % self.short]
                ls += ["  " + b for b in self.branches if b != self.branch]
                return 0, "\n".join(ls) + "\n"
        if sub == "rev-list" and pos == ["HEAD"]:
            n = self.commits
            if "--first-parent" in flags or "--no-merges" in flags:
                n -= self.merges
            if "--all" in flags:
                n = self.all
            fl = [f for f in flags if f not in ("--first-parent", "--no-merges", "--all")]
            if fl == ["--count"]:
                return 0, "%d\n" % n
            if fl in ([], ["--left-right"]):
                return 0, "".join("%s%040x\n" % (">" if fl else "", i + 1) for i in range(n))
        if sub in ("show", "log") and pos in (["HEAD"], []):
            fl = set(flags)
            one = sub == "show" and fl & {"-s", "--no-patch"} or sub == "log" and fl & {"-1", "-n1"}
            fl -= {"-s", "--no-patch", "-1", "-n1"}
            if one and len(fl) == 1:
                f = fl.pop()
                f = f[9:] if f.startswith("--format=") else f[9:] if f.startswith("--pretty=") else None
                def iso(d):
                    d = d.replace(" ", "T", 1).replace(" ", "", 1)
                    return d[:-2] + ":" + d[-2:]
                d, a = self.date, self.adate
                m = {"%ci": d, "%cI": iso(d), "%ai": a, "%aI": iso(a), "%cs": d[:10], "%as": a[:10], "%H": self.hash, "%h": self.short}
                if f in m:
                    return 0, self.signature + m[f] + "\n"
        if sub == "describe" and pos in ([], ["HEAD"]):
            tags, always, long_, dirty, pats, abbrev, excl, fp, exact = False, False, False, None, [], None, [], False, False
            for f in flags:
                if f == "--tags":
                    tags = True
                elif f == "--always":
                    always = True
                elif f == "--long":
                    long_ = True
                elif f == "--dirty":
                    dirty = "-dirty"
                elif f.startswith("--dirty="):
                    dirty = f[8:]
                elif f.startswith("--match="):
                    pats.append(f[8:])
                elif f.startswith("--exclude="):
                    excl.append(f[10:])
                elif f.startswith("--abbrev=") and f[9:].isdigit():
                    abbrev = int(f[9:])
                elif f == "--first-parent":
                    fp = True
                elif f == "--exact-match":
                    exact = True
                else:
                    raise Unknown("git describe %s" % f)
            if dirty is not None and pos:
                return 129, ""  # --dirty is incompatible with commit-ishes

            def hit(p, n):
                return fnmatch.fnmatchcase(n, p.replace("[[:digit:]]", "[0-9]"))

            cand = [t for t in self.tags if (t[1] or tags) and (not pats or any(hit(p, t[0]) for p in pats)) and not any(hit(p, t[0]) for p in excl)]
            if fp:
                cand = [t[:2] + (t[3] if len(t) > 3 else t[2],) for t in cand if len(t) < 4 or t[3] is not None]
            if exact:
                cand = [t for t in cand if t[2] == 0]
            short = self.short if abbrev is None else self.hash[: max(abbrev, 4)]
            suf = dirty if dirty and self.dirty else ""
            if not cand:
                return (0, short + suf + "\n") if always else (128, "")
            n, _, d = min(cand, key=lambda t: t[2])[:3]
            if d == 0 and not long_:
                return 0, n + suf + "\n"
            if abbrev == 0:
                return (0, n + suf + "\n") if not long_ else (129, "")
            return 0, "%s-%d-g%s%s\n" % (n, d, short, suf)
        raise Unknown("git " + " ".join(map(str, key)))


class Eval:
    def __init__(self, it, w):
        self.it, self.w = it, w
        self.memo, self.vals = {}, {}

    # -- gated values
    def value(self, v, bv=None):
        while isinstance(v, Node):
            try:
                v = v.hi if self.atom(v.atom, bv) else v.lo
            except Unknown:
                # not defined here (a group of a pattern that does not match, ...): the program does not get
                # to ask, so the outcome must not depend on it
                k = (id(v), bv) if isinstance(bv, (str, type(None))) else None
                if k is not None and k in self.vals:
                    r = self.vals[k][1]
                    if isinstance(r, Unknown):
                        raise r
                    return r
                try:
                    r = self.value(v.hi, bv)
                    if self.value(v.lo, bv) != r:
                        raise Unknown("outcome depends on %s" % show_atom(v.atom)[:100])
                except Unknown as e:
                    self.vals[k] = (v, e)
                    raise
                self.vals[k] = (v, r)
                return r
        return self.leaf(v, bv)

    def leaf(self, v, bv=None):
        if isinstance(v, Bot):
            return None
        if isinstance(v, C):
            return v.v
        if isinstance(v, IntL):
            return self.aff(v.a, bv)
        if isinstance(v, StrL):
            return "".join(self.term(f, bv) if not isinstance(f, str) else f for f in v.fr)
        if isinstance(v, Tup):
            return tuple(self.value(x, bv) for x in v.xs)
        if isinstance(v, Missing):
            return Missing
        if isinstance(v, Ref):
            r = self.it.heap[v.id]
            if isinstance(r, DictR) and r.ext is None:
                d = {}
                for k, x in r.items.items():
                    y = self.value(x, bv)
                    if y is not Missing:
                        d[self.leaf(k, bv)] = y
                return d
            return ("object", v.id)
        if isinstance(v, SL):
            return self.sl(v, bv)
        if isinstance(v, Op) and v.t[0] in ("mo", "popen", "path"):
            return ("op",) + v.t[:1]
        raise Unknown(repr(v)[:120])

    def cond(self, c, bv=None):
        r = self.value(c, bv)
        if r not in (True, False):
            raise Unknown("condition %r" % (r,))
        return r

    # -- integers
    def aff(self, a, bv=None):
        return a.c + sum(k * self.symbol(s, bv) for s, k in a.t)

    def symbol(self, s, bv):
        i = self.it.idx.get(s)
        if i is None:
            raise Unknown("number %s" % s)
        if i[0] == "rc":
            return self.w.git(i[1])[0]
        if i[0] == "int":
            t = self.term(i[1], bv)
            try:
                return int(t)
            except ValueError:
                raise Unknown("int(%r)" % t)
        if i[0] == "len":
            if i[2] is None:
                return len(self.term(i[1], bv))
            x = [e for e in self.base(i[1], bv) if self.cond(i[2], e)]
            return len(x) if not s.startswith("len:SL(('set'") else len(set(x))
        if i[0] in ("find", "rfind", "index", "rindex", "count"):
            r = getattr(self.term(i[1], bv), i[0].replace("index", "find"))(self.term(i[2], bv))
            return r
        raise Unknown("number %s" % s)

    # -- terms
    def term(self, t, bv=None):
        if isinstance(t, str):
            return t
        if isinstance(t, Aff):
            return str(self.aff(t, bv))
        if isinstance(t, (StrL, C, IntL)):
            return self.leaf(t, bv)
        if t == BV:
            if bv is None:
                raise Unknown("unbound element")
            return bv
        if not isinstance(t, tuple) or not t:
            raise Unknown(repr(t)[:80])
        k = t[0]
        w = self.w
        if k == "cat":
            return "".join(self.term(x, bv) for x in t[1:])
        if k == "str":
            return "".join(self.term(x, bv) for x in t[1])
        if k == "val":
            v = self.term(t[1], bv)
            if not isinstance(v, (str, int)) or len(t) > 3:
                raise Unknown("formatting")
            return str(v)
        if k == "kw":
            sig, d = w.cdate.split("\n")[:-1], w.cdate.split("\n")[-1]
            sig, a = "".join(x + "\n" for x in sig), w.adate

            def iso(x):
                return x.replace(" ", "T", 1).replace(" ", "", 1)

            r = {"%d": w.names, "%D": w.names.strip(" ()"), "%H": w.full, "%ci": sig + d, "%cI": sig + iso(d), "%ai": sig + a, "%aI": sig + iso(a), "%cs": sig + d[:10], "%as": sig + a[:10], "%h": w.full[:7]}.get(t[1])
            if r is None:
                raise Unknown("keyword %s" % t[1])
            return r
        if k == "out":
            return w.git(t[1])[1]
        if k == "file" or k == "realpath" and t[1] == ("file",) or k == "abspath" and t[1] == ("file",):
            return w.path
        if k in ("realpath", "abspath", "normpath"):
            return posixpath.normpath(self.term(t[1], bv))
        if k == "dirname":
            return posixpath.dirname(self.term(t[1], bv))
        if k == "basename":
            return posixpath.basename(self.term(t[1], bv))
        if k == "joinpath":
            return posixpath.join(*[self.term(x, bv) for x in t[1:]])
        if k == "envval":
            return w.environ.get(t[1], "")
        if k in ("strip", "lstrip", "rstrip"):
            return getattr(self.term(t[1], bv), k)(None if t[2] is None else self.term(t[2], bv))
        if k == "slice":
            b = [x if isinstance(x, (int, type(None))) else self.aff(x, bv) for x in t[2:4]]
            return self.term(t[1], bv)[b[0]:b[1]]
        if k == "char":
            return self.term(t[1], bv)[t[2]]
        if k == "replace":
            a = [self.term(x, bv) for x in t[1:4]]
            return a[0].replace(a[1], a[2]) if t[4] is None else a[0].replace(a[1], a[2], int(t[4]))
        if k in ("partition", "rpartition"):
            return getattr(self.term(t[1], bv), k)(self.term(t[2], bv))[t[3]]
        if k == "group":
            m = getattr(re, t[2])(t[1], self.term(t[3], bv))
            if m is None or m.group(t[4]) is None:
                raise Unknown("group of a failed match")
            return m.group(t[4])
        if k == "item":
            xs = self.sl(t[1], bv) if isinstance(t[1], SL) else self.base(t[1], bv)
            if not -len(xs) <= t[2] < len(xs):
                raise Unknown("item out of range")
            return xs[t[2]]
        if k == "first":
            for x in self.base(t[1], bv):
                if self.cond(t[2], x):
                    return x
            raise Unknown("no first element")
        if k == "join":
            return self.term(t[1], bv).join(self.sl(t[2], bv) if isinstance(t[2], SL) else self.base(t[2], bv))
        if k == "re.sub" and len(t) == 4:
            return re.sub(self.term(t[1], bv), self.term(t[2], bv), self.term(t[3], bv))
        if k == "m" and t[1] in ("lower", "upper", "title", "capitalize", "casefold") and len(t) == 3:
            return getattr(self.term(t[2], bv), t[1])()
        raise Unknown(repr(t)[:80])

    # -- collections (elements of the base, in order)
    def base(self, b, bv=None):
        k = b[0]
        if k == "split" and len(b) == 3:
            return self.term(b[1], bv).split(None if b[2] is None else self.term(b[2], bv))
        if k in ("split", "rsplit"):
            return getattr(self.term(b[1], bv), k)(None if b[2] is None else self.term(b[2], bv), b[3])
        if k == "lines":
            return self.term(b[1], bv).splitlines()
        if k in ("sorted", "rsorted", "list", "unordered"):
            xs = self.sl(b[1], bv)
            if k == "unordered" and len(set(xs)) > 1:
                return self.walk(xs)
            return sorted(xs, reverse=k == "rsorted") if k.endswith("sorted") else xs
        if k == "sortedby" and b[1] in ("len", "-len"):
            xs = self.sl(b[3], bv)
            if b[3].kind == "set" and len({len(x) for x in xs}) < len(xs):
                xs = self.walk(xs)
            return sorted(xs, key=len, reverse=b[2])
        if k == "tail":
            return self.base(b[1], bv)[b[2]:]
        if k == "resplit":
            return re.split(b[2], self.term(b[1], bv))
        if k == "findall" and re.compile(b[2]).groups <= 1:
            return re.findall(b[2], self.term(b[1], bv))
        if k == "nothing":
            return []
        raise Unknown(repr(b)[:80])

    def walk(self, xs):
        if self.w.setorder is None:
            raise Unknown("order of a set")
        return sorted(xs, reverse=self.w.setorder == 1)

    def sl(self, s, bv=None):
        out = []
        for x in self.base(s.base, bv):
            if self.cond(s.cond, x):
                e = self.value(s.elt, x)
                if s.kind != "set" or e not in out:
                    out.append(e)
        if s.kind == "set" and not isinstance(s, list):
            return out
        return out

    # -- atoms
    def atom(self, a, bv=None):
        if bv is None:
            r = self.memo.get(a)
            if r is None:
                r = self.memo[a] = self._atom(a, bv)
            return r
        return self._atom(a, bv)

    def _atom(self, a, bv):
        k, w = a[0], self.w
        if k == "eq0":
            return self.aff(a[1], bv) == 0
        if k == "ge0":
            return self.aff(a[1], bv) >= 0
        if k == "expanded":
            return w.expanded
        if k == "nofile":
            return w.nofile
        if k == "nostart":
            return a[1] in w.nostart
        if k == "enoent":
            return w.enoent
        if k == "undecodable":
            return w.undecodable
        if k == "timeout":
            return w.timeout
        if k == "signalled":
            return False
        if k == "inenv":
            return a[1] in w.environ
        if k == "starts":
            return self.term(a[1], bv).startswith(self.term(a[2], bv))
        if k == "ends":
            return self.term(a[1], bv).endswith(self.term(a[2], bv))
        if k == "has":
            return self.term(a[2], bv) in self.term(a[1], bv)
        if k == "eq":
            return self.term(a[1], bv) == self.term(a[2], bv)
        if k == "empty":
            x = a[1]
            if isinstance(x, tuple) and x[0] in ("split", "rsplit", "lines", "sorted", "rsorted", "tail", "list", "unordered", "findall", "resplit", "sortedby"):
                return not self.base(x, bv)
            return self.term(x, bv) == ""
        if k == "match":
            return getattr(re, a[3])(a[2], self.term(a[1], bv)) is not None
        if k == "took-part":
            m = re.search(a[1], self.term(a[2], bv))
            return m is not None and m.group(a[3]) is not None
        if k == "exists":
            return any(self.cond(a[2], x) for x in self.base(a[1], bv))
        if k in ("longer", "haslen"):
            xs = self.sl(a[1], bv) if isinstance(a[1], SL) else self.term(a[1], bv)
            return len(xs) > a[2] if k == "longer" else len(xs) == a[2]
        if k == "m" and a[1] == "isint":
            return re.fullmatch(r"\s*[-+]?\d+\s*", self.term(a[2], bv)) is not None
        if k == "m" and a[1].startswith("is") and len(a) == 3:
            return bool(getattr(self.term(a[2], bv), a[1])())
        raise Unknown("condition %s" % show_atom(a)[:100])
