"""Loads the Python sources of the repository under analysis."""
import ast
import hashlib
import os
import sys

REPO = os.environ.get("SA_REPO", "/repo")

PACKAGES = {
    "fluent.syntax": "fluent.syntax/fluent/syntax",
    "fluent.runtime": "fluent.runtime/fluent/runtime",
    "fluent.pygments": "fluent.pygments/fluent/pygments",
    "fluent.docs": "fluent.docs/fluent/docs",
}


class AnalysisBroken(Exception):
    """An anchor the analysis needs does not exist (any more)."""


class Module:
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, encoding="utf-8") as fh:
            self.text = fh.read()
        self.tree = ast.parse(self.text, filename=path)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.ns = None          # evaluated namespace
        self.evaluating = False
        for node in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node
        number(self.tree, name)


def number(tree, name):
    """Deterministic ids: position-independent (function-relative preorder)."""
    cnt = {}

    def walk(node, owner):
        k = cnt.get(owner, 0)
        cnt[owner] = k + 1
        node._id = "%s#%d" % (owner, k)
        node._owner = owner
        sub = owner
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            sub = owner + "." + node.name
            if sub in cnt and isinstance(node, ast.FunctionDef):
                sub = sub + "'" + str(node.lineno)
        for ch in ast.iter_child_nodes(node):
            walk(ch, sub)
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            node._qual = sub

    walk(tree, name)


class ClassInfo:
    """A class of the repository."""

    def __init__(self, name, qual, mod, node):
        self.name = name
        self.qual = qual
        self.mod = mod
        self.node = node
        self.bases = []        # values Cl / Ext
        self.ns = {}
        self.decorators = []
        self.attrs = False     # attr.s class
        self.ann = {}
        self._mro = None

    def __repr__(self):
        return "<%s>" % self.qual

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    def lookup(self, name):
        """(owner, value) following the MRO; owner is ClassInfo or external name."""
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def issub(self, other):
        """other: ClassInfo or external dotted name."""
        return other in self.mro() or (isinstance(other, str) and other == "builtins.object") or (
            isinstance(other, str) and any(ext_issub(b, other) for b in self.ext_bases()))


def ext_mro(q):
    """MRO of an external class given by dotted name (builtin and stdlib only)."""
    t = ext_type(q)
    if t is None:
        return [q]
    return [tname(c) for c in t.__mro__]


def tname(t):
    return "%s.%s" % (t.__module__, t.__qualname__)


_STD = {"builtins", "datetime", "decimal", "json", "re", "os", "pathlib", "subprocess", "collections"}


def ext_type(q):
    """The Python type behind a builtin/stdlib dotted name (never repository code)."""
    m, _, n = q.rpartition(".")
    if m in ("builtins", "datetime", "decimal"):
        import importlib
        t = getattr(importlib.import_module(m), n, None)
        return t if isinstance(t, type) else None
    return None


def ext_issub(a, b):
    if a == b or b == "builtins.object":
        return True
    ta, tb = ext_type(a), ext_type(b)
    if ta is not None and tb is not None:
        return issubclass(ta, tb)
    return EXT_SUB.get(a) is not None and ext_issub(EXT_SUB[a], b)


# external (third-party) classes whose base matters
EXT_SUB = {
    "babel.core.UnknownLocaleError": "builtins.Exception",
    "babel.UnknownLocaleError": "builtins.Exception",
    "subprocess.CalledProcessError": "builtins.Exception",
}


def _c3(ci):
    from .values import Cl, Ext
    seqs = []
    for b in ci.bases:
        if isinstance(b, Cl):
            seqs.append(list(b.ci.mro()))
        elif isinstance(b, Ext):
            seqs.append(ext_mro(b.q))
        else:
            seqs.append(["?unknown"])
    seqs.append([b.ci if isinstance(b, Cl) else b.q if isinstance(b, Ext) else "?unknown" for b in ci.bases])
    res = [ci]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            cand = seqs[0][0]
        res.append(cand)
        seqs = [[x for x in s if x != cand] for s in seqs]
        seqs = [s for s in seqs if s]
    if "builtins.object" in res:
        res.remove("builtins.object")
    res.append("builtins.object")
    return res


class Project:
    def __init__(self, repo=None, packages=None):
        self.repo = repo or REPO
        self.modules = {}
        for pkg, rel in PACKAGES.items():
            if packages and pkg not in packages:
                continue
            d = os.path.join(self.repo, rel)
            if not os.path.isdir(d):
                raise AnalysisBroken("package directory %s is missing" % rel)
            for base, dirs, files in os.walk(d):
                dirs[:] = [x for x in dirs if x not in ("__pycache__", "tests")]
                for f in sorted(files):
                    if not f.endswith(".py"):
                        continue
                    p = os.path.join(base, f)
                    sub = os.path.relpath(p, d)[:-3].replace(os.sep, ".")
                    name = pkg if sub == "__init__" else pkg + "." + sub
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    self.modules[name] = Module(name, p, os.path.relpath(p, self.repo))

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.modules):
            h.update(self.modules[n].text.encode())
        return h.hexdigest()[:16]

    def stats(self):
        fns = sum(isinstance(n, (ast.FunctionDef, ast.Lambda)) for m in self.modules.values() for n in ast.walk(m.tree))
        return {"modules": len(self.modules), "functions": fns,
                "lines": sum(m.text.count("\n") for m in self.modules.values())}
