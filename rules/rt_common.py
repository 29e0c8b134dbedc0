"""Modular abstract interpretation of the runtime: every evaluator is analysed on a symbolic node and a
symbolic environment; evaluating a child, formatting a value and calling a custom function are opaque steps."""
import ast as A
import sys
import time

from sa.interp import Interp
from sa.linear import symlin
from sa.project import AnalysisBroken, Project
from sa.state import DRec, Fact, Inst, LRec, SRec, State
from sa.values import *  # noqa

from .engine_run import RootNode, new_root
from .report import Report, snippet, where

BUNDLE = "fluent.runtime.bundle"
RES = "fluent.runtime.resolver"
TYPES = "fluent.runtime.types"
SYN = "fluent.syntax.ast"
STR = ("builtins.str", ())
NONE_T = ("builtins.NoneType", ())
# what an opaque step may raise: one representative per family a handler can tell apart
RAISES = ("KeyError", "ValueError", "TypeError", "RecursionError")


def sy(st, name, *types, truth=None):
    v = Sy(("in", name))
    st.facts[v.t] = Fact(frozenset((t, ()) if isinstance(t, str) else t for t in types) or None, truth=truth)
    return v


class Env:
    """The environment object format_pattern hands to the pattern, generalised to any reachable one."""

    def __init__(self, ci):
        self.ci = ci
        self.shape = {}     # class qual -> {field: kind}


class Harness:
    """Common driver; subclasses/observers receive on_child, on_format, on_custom."""

    def __init__(self, observers=(), deadline=None):
        self.project = Project()
        self.obs = list(observers)
        self.it = Interp(self.project, self.obs, tab_names=set(), deadline=deadline)
        it = self.it
        it.opaque_hook = self.opaque
        it.boundary = self.boundary
        it.linear_ints = True
        for n in ("FluentBundle", "FluentBundle.format_pattern", "FluentBundle.get_message",
                  "FluentBundle.add_resource", "FluentBundle.has_message"):
            it.find(BUNDLE + ":" + n)
        self.fluenttype = it.find(TYPES + ":FluentType").ci
        self.fluentnone = it.find(TYPES + ":FluentNone").ci
        self.env_ci = None
        self.captured = None
        self.inline = set()
        self.wrote = set()

    # ---------------------------------------------------------------- classes
    def is_sub(self, name, base):
        ci = self.it.classes.get(name)
        return ci is not None and any(getattr(c, "qual", None) == base.qual for c in ci.mro() if hasattr(c, "qual"))

    def evaluators(self):
        """Node classes that are called with an environment: defined beside FluentBundle's resolver and
        with a __call__ of their own (or inherited from another evaluator)."""
        it = self.it
        out = []
        for q, ci in sorted(it.classes.items()):
            if not ci.mod.name.startswith("fluent.runtime"):
                continue
            own, cv = ci.lookup("__call__")
            if cv is None or not isinstance(cv, Fn):
                continue
            if not any(getattr(c, "mod", None) is not None and c.mod.name == SYN for c in ci.mro()
                       if hasattr(c, "mod")):
                continue
            body = [s for s in cv.node.body if not (isinstance(s, A.Expr) and isinstance(s.value, A.Constant))]
            if len(body) == 1 and isinstance(body[0], A.Raise):
                continue        # abstract
            out.append(ci)
        return out

    # ---------------------------------------------------------------- opaque steps
    def boundary(self, it, f, args, kw, st, node, fr):
        b = f.self_
        if isinstance(b, Obj) and self.compiler_ci is not None:
            r = it.rec(st, b.a)
            if isinstance(r, Inst) and r.ci is self.compiler_ci and getattr(
                    getattr(f.f, "node", None), "name", "") == "__call__" and fr.path != ("root",):
                return self.compile_step(it, args, st, node, fr)
        if not isinstance(b, Sy):
            return None
        ty = st.fact(b.t).types
        names = {t[0] for t in ty} if ty else set()
        n = getattr(getattr(f.f, "node", None), "name", "")
        if n == "__call__" and f in self.inline:
            return None
        if n == "__call__" and names and all(self.project_node(x) for x in names):
            if b == getattr(self, "root_self", None) and not self.in_root(fr):
                return None
            return self.child(it, b, args, kw, st, node, fr)
        if n == "format" and names and all(self.is_sub(x, self.fluenttype) for x in names) \
                and not getattr(self, "inline_format", False):
            return self.format(it, b, args, kw, st, node, fr)
        return None

    def in_root(self, fr):
        return fr.path != ("root",)

    compiler_ci = None

    def compiled_types(self, types):
        """What compiling a value of these types gives (induction hypothesis of the compile rules)."""
        if types is None:
            return None
        out = set()
        for n, args in types:
            if n in ("builtins.list", "builtins.tuple"):
                out.add(("builtins.list", (self.compiled_types(args[0]) if args and args[0] else None,)))
            elif self.project_node(n):
                hit = self.comp_map.get(n)
                if hit is None:
                    out.add((n, args))
                else:
                    out |= {(h, ()) for h in hit}
            else:
                out.add((n, args))
        return frozenset(out)

    comp_map = {}

    def compile_step(self, it, args, st, node, fr):
        v = args[0]
        if not isinstance(v, Sy):
            return [(st, v)] if isinstance(v, K) else None
        ty = st.fact(v.t).types
        if ty is None:
            st.facts.setdefault(("comp", v), Fact(truth=st.fact(v.t).truth))
            return [(st, Sy(("comp", v)))]
        if all(not self.project_node(n) and n not in ("builtins.list", "builtins.tuple") for n, _ in ty):
            return [(st, v)]
        it.emit("on_compile_step", st, v, node, fr)
        t = ("comp", v)
        f = st.fact(v.t)
        st.facts[t] = Fact(self.compiled_types(ty), truth=f.truth)
        none = NONE_T in ty
        if none and len(ty) > 1:
            y = st.fork()
            y.facts[v.t] = Fact(frozenset([NONE_T]), truth=False)
            st.facts[v.t] = f.with_(types=ty - {NONE_T})
            st.facts[t] = Fact(self.compiled_types(ty - {NONE_T}), truth=None)
            return [(st, Sy(t)), (y, NONE_)]
        return [(st, Sy(t))]

    def project_node(self, q):
        ci = self.it.classes.get(q)
        return ci is not None and any(getattr(getattr(c, "mod", None), "name", "") == SYN for c in ci.mro())

    def opaque(self, it, f, args, kw, st, node, fr):
        if isinstance(f, Sy):
            ty = st.fact(f.t).types
            names = {t[0] for t in ty} if ty else set()
            envs = [a for a in args if isinstance(a, Obj) and self.is_env(st, a)]
            if names and all(self.project_node(x) for x in names):
                if self.compiling:
                    return self.outcome(it, ("child", f), st, node, fr, [STR], raises=())
                return self.child(it, f, args, kw, st, node, fr)
            if envs and len(args) == 1:
                return self.child(it, f, args, kw, st, node, fr)
            if f == getattr(self, "pattern", None):
                if self.captured is None and len(args) == 1 and isinstance(args[0], Obj):
                    self.captured = (st.fork(), args[0])
                return self.child(it, f, args, kw, st, node, fr)
            return self.custom(it, f, args, kw, st, node, fr)
        return None

    def is_env(self, st, a):
        r = st.heap.get(a.a)
        return self.env_ci is not None and isinstance(r, Inst) and r.ci is self.env_ci

    def outcome(self, it, what, st, node, fr, types=None, raises=RAISES):
        t = ("c", what, node._id, fr.path)
        if t in st.facts or True:
            st.facts.pop(t, None)
            st.drop_facts(lambda x: _contains(x, t))
        for q in raises:
            y = st.fork()
            if what[0] == "child":
                y.ghost["craised"] = True
            it.rx(y, q, node, fr, Sy(("exc", t)))
        if types is not None:
            st.facts[t] = Fact(frozenset(types))
        return [(st, Sy(t))]

    compiling = False

    def child(self, it, f, args, kw, st, node, fr):
        if self.compiling:
            return self.outcome(it, ("child", f), st, node, fr, [STR], raises=())
        it.emit("on_child", st, f, args, kw, node, fr)
        k = ("n", field_of(f.t))
        st.ghost[k] = min(st.ghost.get(k, 0) + 1, 2)
        self.havoc(it, st, node, fr)
        ty = st.fact(f.t).types
        names = {t[0] for t in ty} if ty else set()
        types = None
        if names and all(x.split(".")[-1] in ("Pattern", "TextElement") for x in names):
            types = [STR, (self.fluentnone.qual, ())]
        elif names and all(x.split(".")[-1] == "Identifier" for x in names):
            types = [STR]
        return self.outcome(it, ("child", f), st, node, fr, types)

    def format(self, it, b, args, kw, st, node, fr):
        it.emit("on_format", st, b, args, kw, node, fr)
        return self.outcome(it, ("format", b), st, node, fr, [STR])

    def custom(self, it, f, args, kw, st, node, fr):
        it.emit("on_custom", st, f, args, kw, node, fr)
        return self.outcome(it, ("custom", f), st, node, fr)

    def havoc(self, it, st, node, fr):
        """A child may report errors and use up parts of the budget."""
        for a, r in list(st.heap.items()):
            if isinstance(r, Inst) and r.ci is self.env_ci and self.env_ci is not None:
                f = dict(r.f)
                for n, v in r.f.items():
                    if n.startswith("%"):
                        continue
                    if n in self.counters:
                        s = symlin("cnt:%s:%s:%s" % (n, node._id, hash(fr.path) % 10 ** 9))
                        if v == I_(s):
                            s2 = symlin("cnt2:%s:%s:%s" % (n, node._id, hash(fr.path) % 10 ** 9))
                            s = s2 if v != I_(s2) else s
                        old = as_lin(v)
                        if old is not None:
                            st.assume(s - old)
                        f[n] = I_(s)
                st.heap[a] = Inst(r.ci, f, r.many, r.nt)

    counters = ()
    setup = None

    # ---------------------------------------------------------------- discovery
    def discover(self):
        """Run format_pattern on an opaque pattern to see what environment patterns are given."""
        it = self.it

        def root(it):
            st, fr, fid = new_root(it, BUNDLE)
            b = sy(st, "bundle", BUNDLE + ".FluentBundle", truth=True)
            p = self.pattern = sy(st, "pattern")
            args = sy(st, "args", ("builtins.dict", (frozenset([STR]), None)), NONE_T)
            res = it.callmethod(b, "format_pattern", [p, args], st, RootNode, fr)
            it.root_results = res
            it.root_excs = list(it.excs[0])
            return res
        it.solve(root)
        if self.captured is None:
            raise AnalysisBroken("format_pattern does not evaluate the pattern it is given")
        st, o = self.captured
        r = st.heap[o.a]
        self.env_ci = r.ci
        self.env_state = st
        self.env_obj = o
        self.roles(st, o)
        return it.root_results, it.root_excs

    def roles(self, st, o):
        """Where the environment keeps what, judged by the values format_pattern puts there."""
        self.p_args, self.p_flags, self.p_active, self.p_counts, self.p_errors, self.p_bundle = [], [], [], [], [], []
        returned = {v.items[1] for x, v in self.it.root_results if isinstance(v, Tup) and len(v.items) == 2}

        def walk(o, path):
            r = st.heap.get(o.a)
            if not isinstance(r, Inst):
                return
            for n, v in r.f.items():
                if n.startswith("%"):
                    continue
                p = path + (n,)
                if isinstance(v, Obj):
                    x = st.heap.get(v.a)
                    if isinstance(x, DRec):
                        self.p_args.append(p)
                    elif isinstance(x, LRec):
                        (self.p_errors if v in returned else self.p_active).append(p)
                    elif isinstance(x, SRec):
                        self.p_active.append(p)
                    elif isinstance(x, Inst):
                        walk(v, p)
                elif isinstance(v, K) and isinstance(v.v, bool):
                    self.p_flags.append(p)
                elif isinstance(v, K) and type(v.v) is int:
                    self.p_counts.append(p)
                elif isinstance(v, Sy) and v == Sy(("in", "bundle")):
                    self.p_bundle.append(p)
        walk(o, ())

    def read(self, st, env, path):
        v = env
        for n in path:
            r = st.heap.get(v.a) if isinstance(v, Obj) else None
            if not isinstance(r, Inst):
                return None
            v = r.f.get(n)
        return v

    def member(self, st, x, s):
        """True / False / None (unknown)"""
        if isinstance(s, Sy):
            c = st.fact(("in", x, s)).const
            return None if c is None else c == TRUE
        if isinstance(s, Obj):
            r = st.heap.get(s.a)
            if isinstance(r, SRec):
                if x in r.items:
                    return True
                if r.rest is None and r.org is None:
                    return False
                if r.org is not None and isinstance(r.org, Sy) and not (r.rest and x in r.rest):
                    return self.member(st, x, r.org)
            if isinstance(r, LRec):
                if x in r.tail:
                    return True
                if r.org is not None and isinstance(r.org, Sy) and not r.pre:
                    return self.member(st, x, r.org)
                if r.exact():
                    return False
        return None

    def general(self, it, st, o, src, path, node, fr):
        """Any value of the same shape as the captured environment."""
        if isinstance(o, Obj):
            r = src.heap[o.a]
            if isinstance(r, Inst):
                f = {}
                n0 = Inst(r.ci, {}, False, r.nt)
                a = ("o", ("root",), "env" + path)
                st.heap[a] = n0
                for n, v in r.f.items():
                    if n.startswith("%"):
                        continue
                    f[n] = self.general(it, st, v, src, path + "." + n, node, fr)
                    if path == "" and as_lin(v) is not None and not (isinstance(v, K) and isinstance(v.v, bool)):
                        self.counters = tuple(self.counters) + (n,)
                st.heap[a] = Inst(r.ci, f, False, r.nt)
                return Obj(a)
            if isinstance(r, LRec):
                return sy(st, "env" + path, ("builtins.list", (None,)))
            if isinstance(r, SRec):
                return sy(st, "env" + path, ("builtins.set", (None,)))
            if isinstance(r, DRec):
                return sy(st, "env" + path, ("builtins.dict", (frozenset([STR]), None)))
        if isinstance(o, K) and isinstance(o.v, bool):
            return sy(st, "env" + path, "builtins.bool")
        if as_lin(o) is not None:
            s = symlin("cnt:" + path)
            st.assume(s)
            return I_(s)
        if isinstance(o, Sy):
            ft = src.fact(o.t)
            if ft.types is not None:
                return sy(st, "env" + path, *ft.types, truth=True if any(
                    t[0] == BUNDLE + ".FluentBundle" for t in ft.types) else None)
        return sy(st, "env" + path)

    def discover_bundle(self):
        """What a new bundle holds."""
        it = self.it

        def root(it):
            st, fr, fid = new_root(it, BUNDLE)
            loc = sy(st, "locales", ("builtins.list", (frozenset([STR]),)))
            fn = sy(st, "functions", ("builtins.dict", (frozenset([STR]), None)), NONE_T)
            iso = sy(st, "use_isolating", "builtins.bool")
            B = it.find(BUNDLE + ":FluentBundle")
            res = it.call(B, [loc], [("functions", fn), ("use_isolating", iso)], st, RootNode, fr)
            it.root_results = res
            it.root_excs = list(it.excs[0])
            return res
        it.solve(root)
        self.bundles = [(st, o, st.heap[o.a]) for st, o in it.root_results
                        if isinstance(o, Obj) and isinstance(st.heap.get(o.a), Inst)]
        if not self.bundles:
            raise AnalysisBroken("FluentBundle cannot be constructed")
        for st, o, r in self.bundles:
            for n, v in r.f.items():
                if isinstance(v, Obj):
                    x = it.rec(st, v.a)
                    if isinstance(x, Inst) and x.ci is not None and x.ci.mod.name.startswith("fluent.runtime") \
                            and x.ci.lookup("__call__")[1] is not None:
                        self.compiler_ci = x.ci
        return it.root_results, it.root_excs

    def node_fields(self, it, st, fr, ci):
        """The stored fields of an AST node of the class, by running its constructor."""
        own, ini = ci.lookup("__init__")
        kw = []
        names = []
        if isinstance(ini, Fn):
            a = ini.node.args
            names = [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
        for n in names:
            kw.append((n, sy(st, "ctor." + n)))
        obs, it.observers = it.observers, []
        it.excs.append([])
        try:
            res = it.call(Cl(ci), [], kw, st.fork(), RootNode, fr)
        finally:
            it.excs.pop()
            it.observers = obs
        out = []
        for x, o in res:
            for n in x.heap[o.a].f:
                if not n.startswith("%") and n not in out:
                    out.append(n)
        return out

    def syntax_only(self, types):
        """Parsed trees hold no runtime nodes."""
        if types is None:
            return None
        out = set()
        for n, args in types:
            if self.project_node(n) and self.it.classes[n].mod.name != SYN:
                continue
            out.add((n, tuple(self.syntax_only(a) if isinstance(a, frozenset) else a for a in args)))
        return frozenset(out)

    def sym_node(self, it, st, fr, ci, name):
        """An instance of the AST class with arbitrary fields."""
        a = ("o", ("root",), name)
        st.heap[a] = Inst(ci, {})
        f = {}
        for n in self.node_fields(it, st, fr, ci):
            v = Sy(("in", name + "." + n))
            ty = self.syntax_only(it.field_types(ci.qual, n))
            st.facts[v.t] = Fact(ty)
            f[n] = v
        st.heap[a] = Inst(ci, f)
        return Obj(a)

    def compile(self, qual):
        """Outcomes of compiling a node of the class."""
        it = self.it
        C = Cl(self.compiler_ci)
        ci = it.classes[qual]

        def root(it):
            st, fr, fid = new_root(it, self.compiler_ci.mod.name)
            x = self.sym_node(it, st, fr, ci, "node")
            self.node = x
            self.node_rec = st.heap[x.a]
            st.frames[fid]["x"] = x
            out = []
            for s, c in it.call(C, [], [], st, RootNode, fr):
                s.frames[fid]["c"] = c
                out += it.callmethod(c, "__call__", [x], s, RootNode, fr)
            it.root_results = out
            it.root_excs = list(it.excs[0])
            return out
        self.compiling = True
        try:
            it.solve(root)
        finally:
            self.compiling = False
        return it.root_results, it.root_excs

    def ast_classes(self):
        it = self.it
        base = it.find(SYN + ":BaseNode").ci
        return [ci for q, ci in sorted(it.classes.items()) if ci.mod.name == SYN and self.is_sub(q, base)]

    def compile_all(self, obs=()):
        """comp_map: syntax class -> classes its nodes compile to, to a fixpoint; then once more, observed."""
        it = self.it
        keep, it.observers = it.observers, []
        todo = [ci for ci in self.ast_classes() if not any(
            ci.qual in [c.qual for c in o.mro() if hasattr(c, "qual")] and o is not ci for o in self.ast_classes())]
        self.leafs = todo
        self.comp_map = {ci.qual: {ci.qual} for ci in todo}
        for _ in range(5):
            new = {}
            for ci in todo:
                hit = set()
                res, ex = self.compile(ci.qual)
                for st, v in res:
                    if isinstance(v, Obj):
                        hit.add(st.heap[v.a].ci.qual)
                    elif isinstance(v, Sy):
                        ty = st.fact(v.t).types
                        hit |= {n for n, _ in ty} if ty else set()
                new[ci.qual] = hit
            if new == self.comp_map:
                break
            self.comp_map = new
        it.observers = keep
        return self.comp_map

    # ---------------------------------------------------------------- one evaluator
    def evaluate(self, ci, active=None):
        """Analyse the evaluator on any node and environment; active: is the node being evaluated already?"""
        it = self.it
        self.counters = ()
        self.ci = ci

        def root(it):
            st, fr, fid = new_root(it, ci.mod.name)
            self.counters = ()
            env = self.general(it, st, self.env_obj, self.env_state, "", RootNode, fr)
            s = sy(st, "self", ci.qual, truth=True)
            self.root_self = s
            self.env = env
            other = self.other = sy(st, "other", truth=True)
            it.distinct = {frozenset((s, other))}
            if active is not None:
                for p in self.p_active:
                    v = self.read(st, env, p)
                    st.facts[("in", s, v)] = Fact(const=TRUE if active else FALSE)
                    st.facts[("in", other, v)] = Fact(const=TRUE)
            st.frames[fid]["o"] = other
            self.start_args = [self.read(st, env, p) for p in self.p_args]
            self.start_flags = [self.read(st, env, p) for p in self.p_flags]
            self.start_errors = [self.read(st, env, p) for p in self.p_errors]
            self.start_counts = [as_lin(self.read(st, env, p)) for p in self.p_counts]
            self.start_active = [self.read(st, env, p) for p in self.p_active]
            for i, c in enumerate(self.start_counts):
                if c is not None:
                    st.ghost[("prog", "start%d" % i)] = c     # joins keep relations to it
            st.frames[fid]["s"] = s
            st.frames[fid]["e"] = env
            if self.setup is not None:
                self.setup(st, s)
            self.start = st.fork()
            f = ci.lookup("__call__")[1]
            res = it.call_fn(f, [s, env], [], st, RootNode, fr)
            it.root_results = res
            it.root_excs = list(it.excs[0])
            return res
        it.solve(root)
        return it.root_results, it.root_excs


def root_of(t):
    """The root a symbolic value was read from."""
    while isinstance(t, tuple) and t:
        if t[0] == "in":
            return t
        if t[0] in ("a", "i", "comp"):
            t = t[1].t if isinstance(t[1], Sy) else t[1]
        elif t[0] in ("e", "prev"):
            t = t[1]
            if isinstance(t, tuple) and t and t[0] in ("v", "k", "items") and isinstance(t[1], Sy):
                t = t[1].t
        else:
            return (t[0],)
    return ("?",)


def field_of(t):
    """The field of the analysed node a child came from."""
    names = []

    def walk(x):
        if isinstance(x, V):
            for f in x.fields:
                walk(getattr(x, f))
        elif isinstance(x, tuple):
            if x and x[0] == "a":
                walk(x[1])
                names.append(x[2])
            else:
                for y in x:
                    walk(y)
    walk(t)
    return ".".join(names)


def _contains(x, t):
    if x == t:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(_contains(y, t) for y in x)
    if isinstance(x, K):
        return False
    if isinstance(x, V):
        return any(_contains(getattr(x, f), t) for f in x.fields)
    return False
