"""Parses the sources under analysis and resolves repository-internal imports."""
import ast
import os


class AnalysisBroken(Exception):
    """An anchor of the analysis is gone: no verdict can be given."""


class Module:
    def __init__(self, name, path, src, is_pkg):
        self.name, self.path, self.src, self.is_pkg = name, path, src, is_pkg
        self.tree = ast.parse(src, path)
        for node in ast.walk(self.tree):
            node._mod = self


class Loader:
    def __init__(self, root, extra=()):
        self.root = root
        self.extra = list(extra)
        self.mods = {}

    def find(self, name):
        for root in [self.root] + self.extra:
            base = os.path.join(root, *name.split("."))
            for p, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
                if os.path.isfile(p):
                    return p, pkg
        return None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            return None
        with open(f[0], encoding="utf-8") as fh:
            src = fh.read()
        m = Module(name, f[0], src, f[1])
        self.mods[name] = m
        return m


def where(node, root=None):
    m = getattr(node, "_mod", None)
    p = m.path if m else "?"
    if root and p.startswith(root):
        p = os.path.relpath(p, root)
    if p.startswith("/repo/"):
        p = p[len("/repo/"):]
    return "%s:%s" % (p, getattr(node, "lineno", "?"))
