"""Checks C27-C31: the version lookup."""
import os
import tomllib

from .terms import *  # noqa: F401,F403
from .loader import Loader, AnalysisBroken, where
from .interp import Unsupported, DictR, leaf_gates
from .strs import VInterp, MISSING, REMOVED, Missing, isstr
from .model import REPO
from .worlds import World, Eval, Unknown

KEYS = ("version", "full-revisionid", "dirty", "error", "date")
REF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "ref")

ASSUME = [
    "git prints what its documentation says for a command that succeeds (format model in kfa/worlds.py); any command may fail, any program may be missing, output may not be text",
    "an archive keyword git has expanded does not start with $Format; %H and %ci are never empty",
    "os, re, subprocess and str behave as documented; the standard library itself is not analysed",
]
TRUST = ["kfa/strs.py (string, collection and process domain)", "kfa/worlds.py (format model of git)", "kfa/ref/refversion.py (reference lookup)", "kfa/interp.py"]


class Run:
    def __init__(self, root, mod, fn, args, assume, platform="linux"):
        self.it = it = VInterp(Loader(root), cfg=dict(assume=assume, platform=platform))
        self.env = e = it.module(mod)
        if e is None or fn not in it.heap[e].vars:
            raise AnalysisBroken("%s.%s not found" % (mod, fn))
        f = it.heap[e].vars[fn]
        self.val = it.call(f, list(args), {}, None)
        self.pend = [p for p in it.pending if p[0] != FALSE]
        for _, l in [(0, x) for x in leaves(self.val)]:
            if isinstance(l, Unk):
                raise Unsupported(None, l.why)

    def field(self, name):
        v = BOT
        for l, g in leaf_gates(self.val):
            if isinstance(l, Bot) or g == FALSE:
                continue
            r = self.it.heap[l.id] if isinstance(l, Ref) else None
            if isinstance(r, DictR) and r.ext is None:
                x = r.items.get(C(name), MISSING)
            else:
                x = Unk("result %r is not a record" % (l,))
            v = ite(g, x, v)
        return v


_CACHE = {}


def program(assume, platform="linux"):
    k = ("p", repr(sorted(assume.items(), key=repr)), platform)
    if k not in _CACHE:
        _CACHE[k] = Run(os.path.join(REPO, "src"), "kalmankit._version", "get_versions", [], assume, platform)
    return _CACHE[k]


def settings():
    with open(os.path.join(REPO, "pyproject.toml"), "rb") as f:
        return tomllib.load(f)["tool"]["versioneer"]


def reference(assume, platform="linux"):
    k = ("r", repr(sorted(assume.items(), key=repr)), platform)
    if k not in _CACHE:
        s = settings()
        if s.get("style", "pep440") != "pep440" or s.get("VCS") != "git":
            raise Unsupported(None, "style or VCS without a reference")
        args = [C(s.get("tag_prefix", "")), C(s.get("parentdir_prefix", "")), IntL(len(s["versionfile_source"].split("/")))]
        _CACHE[k] = Run(REF, "refversion", "lookup", args, assume, platform)
    return _CACHE[k]


KW = {("expanded",): True}
GIT = {("expanded",): False, ("nofile",): False, "nostart": False, "undecodable": False, "timeout": False, "rc": 0}
NOFILE = {("expanded",): False, ("nofile",): True}
NOGIT = {("expanded",): False, ("nofile",): False, "nostart": True}
BASE = {("expanded",): False, ("nofile",): False, "nostart": False, "undecodable": False, "timeout": False}

# ---------------------------------------------------------------- format models


def paths():
    for p in ("/home/u/work/checkout", "/tmp/kalmankit-1.4.0", "/tmp/kalmankit-2.0/x", "/tmp/kalmankit-2.1/x/y", "/tmp/kalmankit-2.2/x/y/z", "/srv/kalmankit-1.0/kalmankit-3.1", "/srv/kalmankit", "/srv/my-kalmankit-1.0", "/srv/kalmankit-kalmankit-5", "/srv/kalmankit-main", "/srv/Kalmankit-1.4.0", "/srv/kalmankit-", "/srv/KALMANKIT-2.0", "/srv/kalmankit_1.0", "/srv/kalmankit--1.0", "/srv/kalmankit-1.0.kalmankit-2.0", "/kalmankit-0.1"):
        yield p + "/src/kalmankit/_version.py"


def git_worlds():
    out = []
    tagsets = [
        [],
        [("v1.2.3", True, 0)],
        [("v1.2.3", True, 4)],
        [("v1.2.3", False, 0)],
        [("v1.2.3", False, 2)],
        [("v1.2.3+local.1", True, 0)],
        [("v1.2.3+local.1", True, 3)],
        [("v2.0-rc1", True, 0)],
        [("v2.0-rc1", True, 11)],
        [("v1.0-dirty-fix", True, 1)],
        [("v1.0.dev1", True, 5)],
        [("v0.9-3-gabcdef0", True, 2)],
        [("release-1", True, 0), ("v1.1", True, 6)],
        [("vnext", True, 1), ("v1.1", True, 6)],
        [("1.0", True, 0)],
        [("vnext", True, 2)],
        [("v1.1", True, 0), ("v1.0", True, 3)],
        [("v0", True, 0)],
        [("v1v2", True, 1)],
        [("v3.1", True, 5, 2)],
        [("v3.2", True, 4, None), ("v3.1", True, 9, 6)],
        [("v3.2rc1", False, 1), ("v3.1", True, 7)],
        [("v10", True, 100)],
    ]
    n = 0
    for ts in tagsets:
        for dirty in (False, True):
            n += 1
            for var in (dict(), dict(short="3f2a9c10d"), dict(branch=None, branches=["topic", "master"]), dict(branch="feature/x", signature="gpg: Signature made Mon\ngpg: Good signature\n")):
                out.append(World("tags %s, %s, %s" % (ts or "none", "dirty" if dirty else "clean", var or "branch master"), tags=ts, dirty=dirty, **var))
        p = "/srv/kalmankit-7.7"
        out.append(World("tags %s, in %s" % (ts or "none", p), tags=ts, path=p + "/src/kalmankit/_version.py"))
    return out


class Describe(World):
    """Output of 'git describe' given literally."""

    def git(self, key):
        if key[0] == "describe":
            return 0, self.text + "\n"
        return super().git(key)


def odd_worlds():
    for s in ("v1.2.3-rc1", "abc-def", "release-7-g3f2a9c1", "v1.0-x-g3f2a9c1", "v1.0-3-gxyz", "w1.0-3-g3f2a9c1-dirty", "v1.2.3-rc1-dirty", "release-7-g3f2a9c1-dirty"):
        yield Describe("git describe prints %r" % s, text=s)


def kw_worlds():
    out = []
    names = [
        " (HEAD -> master, tag: v1.2.3)", "(tag: v1.0, tag: v1.1, origin/main)", "(tag: v2.0rc1, tag: v2.0)", " (HEAD, v1.0, master)",
        "(HEAD -> release-2, main)", "(HEAD -> main)", "", "(tag: vnext, tag: v3)", "(tag: 1.0)", "(tag: v)", "(tag: v1.0-v2)",
        "(v9.9, tag: v1.0)", "(tag: latest, v2.0)", "(tag: v10.0, tag: v9.0)", "(v10, v9, main)", "(HEAD -> v7-maint)",
        "(tag: stable, tag: w1.0)", "(tag: v1.1, tag: v1.0, tag: v0.9)", "(origin/v1.5-x, v)", "(HEAD -> master, tag: rel-1, v3.0)",
        "(tag: vv1, tag: v2)", "(tag: xv1, v4)", "(tag: v1.0, tag: v1.0.1)", "(grafted, HEAD -> main, tag: v0.3)", "(tag: v.1, tag: v5)",
        "(tag: tag: v1)", "(v1-branch, tag: foo)", "(tag: vv1)", "(tag: vvv2, tag: v1)", "(tag: v1.10, tag: v1.9)", "(tag: v1.0.0.1, tag: v2)", "(HEAD -> main, tag: V1.0)",
    ]
    for s in names:
        for d in ("2024-03-05 10:11:12 +0100", "gpg: Good signature\n2022-01-02 03:04:05 -0700"):
            out.append(World("refs %r%s" % (s, ", signed" if "gpg" in d else ""), expanded=True, names=s, cdate=d))
    return out


def fault_worlds(keys):
    out = []
    some = [w for w in git_worlds()[::7]] + list(odd_worlds())
    for w in some:
        d = dict(w.__dict__)
        base = d.pop("name")

        def add(n, **kw):
            out.append(type(w)(base + ", " + n, **{**d, **kw}))

        add("git missing", nostart=("git", "git.cmd", "git.exe"))
        add("git not executable", nostart=("git", "git.cmd", "git.exe"), enoent=False)
        add("git.cmd missing", nostart=("git.cmd",))
        add("output not UTF-8", undecodable=True)
        add("every command fails", fails=("all",))
        add("a command takes too long", timeout=True)
        for k in keys:
            add("'git %s' fails" % " ".join(map(str, k)), fails=(k,))
        for br in (dict(branch=None, branches=[]), dict(branch=None, branches=["topic"]), dict(branch="x(1)")):
            add(str(br), **br)
    return out


def every_world(keys):
    return git_worlds() + list(odd_worlds()) + kw_worlds() + [World("no __file__", nofile=True)] + fault_worlds(keys) + [World("not a repository, in %s" % p, fails=("all",), path=p) for p in paths()]


def keys_of(run):
    from .strs import canon_args

    out = []
    for g, kind, words, kw, shell, node in run.it.procs:
        if kind == "list" and all(isinstance(x, str) for x in words):
            k = canon_args(words[1:])
            if k not in out:
                out.append(k)
    return out


def holds(run, g, w):
    """The gate in the given world: True / False / None when the model does not say."""
    try:
        return Eval(run.it, w).cond(g)
    except Unknown:
        return None


def witness(run, g, worlds):
    """First world in which the gate holds."""
    return next((w for w in worlds if holds(run, g, w) is True), None)


# ---------------------------------------------------------------- comparison of records


def norm_error(v):
    """Only whether an error is reported matters."""
    if isinstance(v, Node):
        return ite(Node(v.atom, TRUE, FALSE), norm_error(v.hi), norm_error(v.lo))
    if v == NONE or isinstance(v, (Bot, Unk, Missing)):
        return v
    return C("<reported>")


def unk_in(v):
    for l in leaves(v):
        if isinstance(l, Unk):
            return l.why
    for a in atoms_of(v):
        if a[0] == "unk":
            return show_atom(a)
    return None


def diff(a, b, conds=()):
    """Cubes on which two diagrams differ."""
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        if isinstance(a, Bot) or isinstance(b, Bot) or a == b:
            return []
        return [(conds, a, b)]
    if a == b:
        return []
    t = min((x.atom for x in (a, b) if isinstance(x, Node)), key=akey)
    return (diff(cof(a, t, True), cof(b, t, True), conds + ((t, True),)) or diff(cof(a, t, False), cof(b, t, False), conds + ((t, False),)))


def show(conds):
    return " and ".join(("%s" if v else "not %s") % show_atom(a)[:160] for a, v in conds[:6]) or "always"


def same_record(rep, rule, label, run, ref, worlds, fields=KEYS):
    """Program and reference give the same record in one scenario."""
    fn = "src/kalmankit/_version.py (get_versions)"
    for f in fields:
        a, b = run.field(f), ref.field(f)
        if f == "error":
            a, b = norm_error(a), norm_error(b)
        ds = diff(a, b)
        if not ds:
            rep.add(rule, "%s: %s" % (label, f), True, "%d cases" % len(set(map(repr, leaves(a)))), fn)
            continue
        found = None
        todo = list(worlds)
        while todo:
            w = todo.pop(0)
            if w.setorder is None and any(holds(run, p[0], w) is not False for p in run.pend):
                continue
            try:
                x, y = Eval(run.it, w).value(a), Eval(ref.it, w).value(b)
            except Unknown as e:
                if w.setorder is None and "order of a set" in str(e):
                    # the order is arbitrary: the value must be right for each
                    for so in (0, 1):
                        d = dict(w.__dict__)
                        todo.insert(0, type(w)(**{**d, "name": d["name"] + ", set walked in order %d" % so, "setorder": so}))
                continue
            if x is Missing or x != y:
                found = (w, "<absent>" if x is Missing else x, y)
                break
        conds, la, lb = ds[0]
        det = "%s differs when %s\n  found: %s\n  expected: %s" % (f, show(conds), repr(la)[:400], repr(lb)[:400])
        if found:
            det += "\n  for instance with %s: %r instead of %r" % (found[0].name, found[1], found[2])
            rep.add(rule, "%s: %s" % (label, f), False, det, fn)
        else:
            rep.add(rule, "%s: %s" % (label, f), None, (unk_in(a) or "normal forms differ, no output of git tells them apart; ") + det[:600])


def scenario(rep, rule, label, assume, worlds, fields=KEYS, platform="linux", ref_assume=None):
    try:
        run = program(assume, platform)
        ref = reference(ref_assume or assume, platform)
    except Unsupported as e:
        rep.add(rule, label, None, str(e))
        return
    rep.saw(run.it)
    same_record(rep, rule, label, run, ref, worlds, fields)


# ---------------------------------------------------------------- C27


def c27(rep):
    for platform in ("linux", "win32"):
        try:
            run = program({}, platform)
        except Unsupported as e:
            rep.add("complete-record", "get_versions on %s" % platform, None, str(e))
            continue
        rep.saw(run.it)
        worlds = every_world(keys_of(run))
        never_raises(rep, "never-raises", "get_versions on %s" % platform, run, run.pend, worlds)
        g = FALSE
        for l, gl in leaf_gates(run.val):
            if not isinstance(l, Bot):
                g = b_or(g, gl)
        miss = b_not(g)
        for p in run.pend:
            miss = b_and(miss, b_not(p[0]))
        for f in KEYS:
            bad, whys = FALSE, []
            for l, gl in leaf_gates(run.field(f)):
                if isinstance(l, (Missing,)):
                    bad = b_or(bad, gl)
                elif isinstance(l, Unk) and "is not a record" in l.why:
                    bad = b_or(bad, gl)
                    whys.append(l.why)
            if bad == FALSE:
                rep.add("complete-record", "%s on %s" % (f, platform), True, "present on every path")
                continue
            w = witness(run, bad, worlds)
            rep.add("complete-record", "%s on %s" % (f, platform), False if w else None, "%s: key %r absent%s" % ("; ".join(whys) or "record", f, " with " + w.name if w else " on a path that could not be confirmed"), "src/kalmankit/_version.py (get_versions)")
    package_import(rep)


def never_raises(rep, rule, label, run, pend, worlds):
    seen = {}
    for p in pend:
        k = (p[1], where(p[2]))
        seen[k] = b_or(seen.get(k, FALSE), p[0])
    bad = False
    for (et, at), g in sorted(seen.items()):
        w = witness(run, g, worlds)
        bad = True
        rep.add(rule, "%s: %s at %s" % (label, et, at.split(":")[0]) if w is None else "%s: %s" % (label, et), False if w else None, "%s raised at %s escapes%s" % (et, at, " with " + w.name if w else " unless excluded by facts the analysis does not have: " + repr(g)[:300]), at)
    if not bad:
        rep.add(rule, label, True, "no exception leaves the lookup on any path (%d commands, %d exception sites)" % (len(keys_of(run)), len(run.it.pending)))


class Package(Run):
    def __init__(self, assume=None):
        self.it = it = VInterp(Loader(os.path.join(REPO, "src")), cfg=dict(assume=assume or {}))
        self.env = it.module("kalmankit")
        if self.env is None:
            raise AnalysisBroken("package kalmankit not found")


def import_scenarios():
    yield "git missing", NOGIT, [World("git missing, in %s" % p, nostart=("git", "git.cmd", "git.exe"), path=p) for p in paths()]
    yield "no __file__", NOFILE, [World("no __file__", nofile=True)]
    yield "keywords expanded", KW, kw_worlds()
    yield "git answers", GIT, git_worlds() + list(odd_worlds())


def package_import(rep):
    for label, assume, ws in import_scenarios():
        # the same obligation restricted to one source of the version: small conditions, quickly decided
        try:
            run = Package(assume)
        except Unsupported:
            continue
        pend = [p[1:] for p in run.it.modpending if p[1] != FALSE]
        for p in pend:
            w = witness(run, p[0], ws)
            if w is not None:
                rep.saw(run.it)
                rep.add("import-succeeds", "import kalmankit: %s" % p[1], False, "%s raised at %s escapes with %s" % (p[1], where(p[2]), w.name), where(p[2]))
                return
    try:
        run = Package()
    except Unsupported as e:
        rep.add("import-succeeds", "import kalmankit", None, str(e))
        return
    it = run.it
    rep.saw(it)
    worlds = every_world([])
    try:
        program({})
    except Unsupported as e:
        # the body of the look-up was not analysed to its end: nothing can be said of the import
        rep.add("import-succeeds", "import kalmankit", None, str(e))
        return
    pend = [p[1:] for p in it.modpending if p[1] != FALSE]
    never_raises(rep, "import-succeeds", "import kalmankit", run, pend, worlds)
    v = it.heap[run.env].vars.get("__version__")
    if v is None:
        rep.add("package-version", "kalmankit.__version__", False, "the package has no __version__", "src/kalmankit/__init__.py")
        return
    try:
        g = program({})
    except Unsupported as e:
        rep.add("package-version", "kalmankit.__version__", None, str(e))
        return
    f = g.field("version")
    ds = diff(v, f)
    if not ds:
        rep.add("package-version", "kalmankit.__version__ is the looked-up version", True)
        return
    bad = None
    for w in worlds:
        try:
            x, y = Eval(it, w).value(v), Eval(g.it, w).value(f)
        except Unknown:
            continue
        if x != y:
            bad = (w, x, y)
            break
    rep.add("package-version", "kalmankit.__version__ is the looked-up version", False if bad else None, "with %s it is %r, the record says %r" % (bad[0].name, bad[1], bad[2]) if bad else unk_in(v) or "normal forms differ: %s" % (ds[0][1:],), "src/kalmankit/__init__.py")


# ---------------------------------------------------------------- C28


def c28(rep):
    ws = git_worlds() + list(odd_worlds())
    scenario(rep, "version-of-checkout", "git answers", GIT, ws)
    scenario(rep, "version-of-checkout", "git answers on Windows", {**GIT, ("nostart", "git"): True}, ws, platform="win32", ref_assume=GIT)


# ---------------------------------------------------------------- C22 (version look-up part)

STATE = ("os.environ.", "os.chdir", "os.fchdir", "os.chroot", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.set", "sys.set", "sys.path.", "signal.", "gc.", "atexit.", "locale.setlocale", "socket.setdefaulttimeout", "random.seed", "numpy.seterr", "numpy.set", "numpy.random.", "logging.basicConfig", "logging.disable", "time.tzset", "resource.setrlimit", "faulthandler.", "threading.set")


def state_changes(rep):
    """The version look-up leaves the process as it found it: directory, environment, interpreter settings."""
    for label, make in (("get_versions on linux", lambda: program({}, "linux")), ("get_versions on win32", lambda: program({}, "win32")), ("import kalmankit", Package)):
        try:
            run = make()
        except Unsupported as e:
            rep.add("lookup-leaves-process-state", label, None, str(e))
            continue
        rep.saw(run.it)
        seen = set()
        found = [(g, name, node) for g, name, node in run.it.effects]
        for e in run.it.events:
            if e.kind in ("io", "extcall", "rng", "extwrite"):
                found.append((e.guard, ".".join(map(str, e.data)) if isinstance(e.data, tuple) else str(e.data), e.node))
            elif e.kind == "warn" and str(e.data).split(".")[-1] in ("simplefilter", "filterwarnings", "resetwarnings"):
                found.append((e.guard, str(e.data), e.node))
        for g, name, node in found:
            if g == FALSE or (name, where(node)) in seen:
                continue
            if name.startswith("os.set") and not name.startswith(("os.setuid", "os.setgid", "os.seteuid", "os.setegid", "os.setsid", "os.setpgid", "os.setpriority")):
                continue
            if name.startswith(STATE) or name.startswith("warnings."):
                seen.add((name, where(node)))
                family = name[:11]
                restored = sum(x.startswith(family) and h != FALSE for h, x, _ in found) > 1
                rep.add("lookup-leaves-process-state", "%s: %s" % (label, name), None if restored else False, "calls or stores into %s, which outlives the look-up" % name, where(node))
        if not seen:
            rep.add("lookup-leaves-process-state", label, True, "%d other effects seen" % len(found))


# ---------------------------------------------------------------- C29

QUERIES = {"rev-parse", "describe", "rev-list", "show", "log", "symbolic-ref", "cat-file", "name-rev", "ls-files", "status", "diff-index", "for-each-ref", "merge-base", "--version"}
WRITES = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir", "os.makedirs", "os.rmdir", "os.removedirs", "os.symlink", "os.link", "os.chmod", "os.chown", "os.truncate", "os.utime", "os.mknod", "os.mkfifo", "Path.write_text", "Path.write_bytes", "Path.mkdir", "Path.touch", "Path.unlink", "Path.rename", "Path.replace", "Path.rmdir"}
STARTS = {"os.system", "os.popen", "os.execv", "os.execve", "os.execvp", "os.execl", "os.execlp", "os.spawnl", "os.spawnv", "os.spawnlp", "os.spawnvp", "os.fork", "os.posix_spawn", "os.startfile", "subprocess.getoutput", "subprocess.getstatusoutput"}


def c29(rep):
    for platform in ("linux", "win32"):
        runs = []
        try:
            runs.append(("get_versions", program({}, platform)))
        except Unsupported as e:
            rep.add("git-only", "get_versions on %s" % platform, None, str(e))
        for label, run in runs:
            rep.saw(run.it)
            processes(rep, "%s on %s" % (label, platform), run, platform)
    try:
        pk = Package()
        rep.saw(pk.it)
        processes(rep, "import kalmankit", pk, "linux")
    except Unsupported as e:
        rep.add("git-only", "import kalmankit", None, str(e))


def processes(rep, label, run, platform):
    it = run.it
    allowed = {"git"} if platform != "win32" else {"git", "git.cmd", "git.exe"}
    try:
        levels = len(settings()["versionfile_source"].split("/"))
    except KeyError:
        levels = 3
    root = ("realpath", ("file",))
    for _ in range(levels):
        root = ("dirname", root)
    res = {}

    def put(rule, ok, what, node, g):
        k = (rule, where(node))
        old = res.get(k)
        if old is None or old[0] is True or old[0] is None and ok is False:
            res[k] = (ok, what, where(node))

    for g, kind, words, kw, shell, node in it.procs:
        if g == FALSE:
            continue
        text = "git command %s" % (" ".join(str(w) for w in words[:8]))[:200]
        put("argument-list", True if kind == "list" else False if kind == "string" else None, text + (" started from a string" if kind == "string" else ""), node, g)
        for l in leaves(shell):
            put("no-shell", l == FALSE or l == NONE if isinstance(l, (C, IntL)) else None, text + " through a shell" if l != FALSE else text, node, g)
        if kind != "list":
            continue
        prog = words[0]
        put("git-only", prog in allowed if isinstance(prog, str) else None, "runs %s" % (prog,), node, g)
        if len(words) > 1 and prog in allowed:
            rest = [w for w in words[1:]]
            sub = rest[0]
            ok = isinstance(sub, str) and (sub in QUERIES or sub == "branch" and readonly_branch(rest[1:]))
            put("read-only-commands", ok if isinstance(sub, str) else None, "runs git " + " ".join(map(str, rest))[:160], node, g)
        c = kw.get("cwd", NONE)
        for l, gl in leaf_gates(c):
            gg = b_and(g, gl)
            if gg == FALSE or isinstance(l, Bot):
                continue
            t = l.t[1] if isinstance(l, Op) and l.t[0] == "path" else l.fr[0] if isinstance(l, StrL) and len(l.fr) == 1 else None
            if t == root:
                put("in-source-root", True, "", node, g)
                continue
            if l == NONE or isinstance(l, C):
                put("in-source-root", False, text + " runs in %s" % ("the current directory of the process" if l == NONE else l.v), node, g)
                continue
            st = None
            try:
                for p in paths():
                    w = World("", path=p)
                    if Eval(it, w).term(t) != Eval(it, w).term(root):
                        st = False
            except Unknown:
                pass
            put("in-source-root", st, text + " runs in %r instead of the source root" % (l,), node, g)
        inherited = Node(("inenv", "GIT_DIR"), TRUE, FALSE)
        for l, gl in leaf_gates(kw["env"].v):
            gg = b_and(g, gl)
            if gg == FALSE or isinstance(l, Bot):
                continue
            if l == REMOVED:
                put("git-dir-removed", True, "", node, g)
            elif isinstance(l, Missing):
                put("git-dir-removed", b_and(gg, inherited) == FALSE, text + " gets the caller's GIT_DIR", node, g)
            elif isinstance(l, Unk):
                put("git-dir-removed", None, l.why, node, g)
            else:
                put("git-dir-removed", False, text + " gets a GIT_DIR", node, g)
    for (rule, at), (ok, what, wh) in sorted(res.items()):
        rep.add(rule, "%s: process started" % label, ok, what, wh)
    if not it.procs:
        rep.add("git-only", label + ": no process", True, "no process is started")
    bad = False
    for g, name, node in it.effects:
        if g == FALSE or name.startswith(STATE):
            continue
        bad = True
        rep.add("no-other-effect", "%s: %s" % (label, name), False if name in WRITES or name in STARTS or name.startswith("shutil.") else None, "calls %s" % name, where(node))
    for g, mode, node in it.opens:
        if g == FALSE:
            continue
        for m in leaves(mode):
            ok = isinstance(m, C) and isinstance(m.v, str) and not set(m.v) & set("wax+")
            if not ok:
                bad = True
                rep.add("writes-no-file", "%s: open" % label, False if isinstance(m, C) else None, "opens a file with mode %r" % (m,), where(node))
    if not bad:
        rep.add("writes-no-file", label, True, "no file is opened for writing, no other effect on the system")


def readonly_branch(rest):
    if any(w == "--show-current" for w in rest):
        return all(w in ("--show-current",) for w in rest)
    ok = {"--contains", "HEAD", "-a", "-r", "--all", "--list", "--no-color", "-l"}
    return "--contains" in rest and all(isinstance(w, str) and (w in ok or w.startswith("--format=")) for w in rest)


# ---------------------------------------------------------------- C30


def c30(rep):
    s = settings()
    ps = [World("not a repository, in %s" % p, fails=("all",), path=p) for p in paths()]
    scenario(rep, "fallback-order", "no __file__ and no keywords: unknown", NOFILE, [World("no __file__", nofile=True)])
    for plat in ("linux", "win32"):
        ws = [World("git missing, in %s" % p, nostart=("git", "git.cmd", "git.exe"), path=p, enoent=e) for p in paths() for e in (True, False)]
        scenario(rep, "fallback-order", "git cannot be started (%s): parent directory, then unknown" % plat, NOGIT, ws, platform=plat)
    try:
        refs = set(keys_of(reference(GIT)))
        mine = keys_of(program(GIT))
    except Unsupported as e:
        rep.add("fallback-order", "commands", None, str(e))
        refs, mine = set(), []
    for k in mine:
        if k in refs and k[0] != "rev-list":
            ws = [World("'git %s' fails, in %s" % (" ".join(k), p), fails=(k,), path=p) for p in paths()]
            scenario(rep, "fallback-order", "'git %s' fails: parent directory, then unknown" % " ".join(k), {**BASE, ("rc", k): "fails"}, ws, ref_assume={**BASE, "rc": "fails"}) if k[0] != "show" else None
    for dup in ("keywords first",):
        try:
            run = program(KW)
            live = [p for p in run.it.procs if p[0] != FALSE]
            rep.add("keywords-first", "no command runs when the keywords are expanded", not live, "runs %s" % (" ".join(map(str, live[0][2])),) if live else "%d paths" % len(leaves(run.val)), where(live[0][5]) if live else "")
        except Unsupported as e:
            rep.add("keywords-first", "expanded keywords", None, str(e))
    scenario(rep, "keywords-first", "keywords before git", KW, kw_worlds(), fields=("version",))
    scenario(rep, "git-before-directory", "git before the parent directory", GIT, git_worlds(), fields=("version",))
    # settings
    src = s.get("versionfile_source", "")
    rep.add("settings", "version file %s" % src, os.path.isfile(os.path.join(REPO, src)) and os.path.samefile(os.path.join(REPO, src), os.path.join(REPO, "src/kalmankit/_version.py")), "the version file is not where pyproject.toml says", "pyproject.toml")
    ga = os.path.join(REPO, ".gitattributes")
    att = open(ga).read().split("\n") if os.path.exists(ga) else []
    rep.add("settings", "git-archive expands the keywords of the version file", any(l.split()[:1] == [src] and "export-subst" in l.split()[1:] for l in att), ".gitattributes does not mark %s export-subst" % src, ".gitattributes")
    try:
        run = program(KW)
        f = run.it.heap[run.env].vars.get("get_config")
        if f is not None:
            cfg = run.it.call(f, [], {}, None)
            names = ("VCS", "style", "tag_prefix", "parentdir_prefix", "versionfile_source")
            for n in names:
                v = run.it.attr(cfg, n, None)
                want = s.get(n)
                ok = v == C(want) if isinstance(v, C) else None
                rep.add("settings", "%s equals the project configuration" % n, ok, "get_config().%s is %r, pyproject.toml says %r" % (n, v, want), "src/kalmankit/_version.py (get_config)")
    except Unsupported as e:
        rep.add("settings", "get_config", None, str(e))


# ---------------------------------------------------------------- C31


def c31(rep):
    scenario(rep, "version-from-keywords", "keywords expanded", KW, kw_worlds())
    try:
        run = program(GIT)
        vals = [run.field(f) for f in KEYS]
        used = any(mentions(v, "kw") for v in vals)
        rep.add("declines-unexpanded", "unexpanded keywords are not used", not used, "the result depends on the keyword text although it is not expanded", "src/kalmankit/_version.py")
    except Unsupported as e:
        rep.add("declines-unexpanded", "unexpanded keywords", None, str(e))


def mentions(v, kind):
    if isinstance(v, Node):
        return mentions(v.atom, kind) or mentions(v.hi, kind) or mentions(v.lo, kind)
    if isinstance(v, tuple):
        return bool(v) and v[0] == kind or any(mentions(x, kind) for x in v)
    if isinstance(v, StrL):
        return any(mentions(x, kind) for x in v.fr) or any(isinstance(x, str) and "$Format" in x for x in v.fr)
    if isinstance(v, C):
        return isinstance(v.v, str) and "$Format" in v.v
    return False


CHECKS = {"C27": c27, "C28": c28, "C29": c29, "C30": c30, "C31": c31}
