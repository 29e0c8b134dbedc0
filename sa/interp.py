"""A disjunctive abstract interpreter for Python source.

It never runs the analysed code: every statement is a transformer over abstract
states; loops and recursive functions are solved by fixpoint iteration with widening.
"""
import ast
import os
import time

from . import scopes, strs
from .coro import Coro
from .charset import CS, ANY, ANYCH, EOF, EOFSET
from . import join as joining
from .join import (Joiner, disc, fold_first, fold_value, join, kind, list_pairs, merge_into, merge_recs, merge_vals,
                   shape, srcs, tag_of, value_fact)
from .linear import Cons, Lin, lin, symlin
from .models import Models
from .project import AnalysisBroken, ClassInfo, Project, ext_issub
from .state import *  # noqa
from .state import fresh, reset_fresh
from .values import *  # noqa
from .values import V

NEXT, BRK, CNT, RET, EXC = "next", "brk", "cnt", "ret", "exc"
MAXDEPTH = 70


def has_call(e):
    c = getattr(e, "_hascall", None)
    if c is None:
        c = e._hascall = any(isinstance(n, (ast.Call, ast.Attribute, ast.BinOp, ast.ListComp, ast.GeneratorExp,
                                            ast.DictComp, ast.SetComp, ast.Subscript, ast.IfExp, ast.BoolOp,
                                            ast.Compare, ast.Await, ast.Yield))
                             for n in ast.walk(e))
    return c


class Budget(Exception):
    pass


class Frame:
    __slots__ = ("fid", "node", "mod", "cls", "path", "parent", "yielder", "ctx", "fn")

    def __init__(self, fid, node, mod, cls, path, parent, fn=None, ctx=None):
        self.fid = fid
        self.node = node
        self.mod = mod
        self.cls = cls
        self.path = path
        self.parent = parent
        self.yielder = None
        self.ctx = ctx
        self.fn = fn


class Head:
    def __init__(self, st):
        self.state = st
        self.syms = set()
        self.outs = []
        self.runs = 0


class Ctx:
    """A tabulated function in one calling context."""

    def __init__(self, key, fn, st, fid):
        self.key = key
        self.fn = fn
        self.entry = st
        self.syms = set()
        self.fid = fid
        self.exits = {}          # shape -> Head-like (kind, state, syms)
        self.done_pass = -1
        self.active = False
        self.stale = True
        self.runs = 0
        self.version = 0
        self.depth = 0
        self.callers = set()


class Interp(Coro, Models):
    def __init__(self, project, observers=(), tab_names=frozenset(), deadline=None):
        self.p = project
        self.observers = list(observers)
        self.ghosters = [o for o in observers if hasattr(o, "loop_ghost")]
        self.tab_names = tab_names
        self.excs = [[]]
        self.static_frames = {}
        self.static_heap = {}
        self.finfo = {}
        self.gens = {}
        self.fn_defaults = {}
        self.classes = {}
        self.table = {}
        self.passno = 0
        self.maxdisj = 16
        self.final = False
        self.ctxstack = []
        self.table_changed = False
        self.unsupported = {}
        self.stats = {"stmts": 0, "calls": 0, "heads": 0, "maxstates": 0, "functions": set(), "joins": 0}
        self.callstack = []
        self.deadline = deadline
        self.opaque_hook = None
        self.boundary = None        # modular analyses: calls of methods of symbolic objects
        self.distinct = ()
        self.linear_ints = False    # lengths of symbolic containers as linear symbols
        self._fieldtypes = {}
        self.subclasses_cache = {}
        self.evaluating_static = False
        for m in project.modules.values():
            self.eval_module(m)
        self.index_classes()

    # ------------------------------------------------------------ events
    def emit(self, name, *a):
        for o in self.observers:
            m = getattr(o, name, None)
            if m is not None:
                m(self, *a)

    def where(self, node, fr=None):
        mod = fr.mod if fr else None
        return "%s:%s" % (mod.rel if mod else "?", getattr(node, "lineno", "?"))

    def unsup(self, node, fr, why):
        k = (self.where(node, fr), why)
        self.unsupported[k] = self.unsupported.get(k, 0) + 1

    # ------------------------------------------------------------ modules
    def eval_module(self, m):
        if m.ns is not None or m.evaluating:
            return
        m.evaluating = True
        fid = ("m", m.name)
        st = State()
        st.frames[fid] = {"__name__": K(m.name), "__file__": K(m.rel)}
        if m.name in ("__main__",):
            pass
        fr = Frame(fid, m.tree, m, None, (m.name,), None)
        m.tree._locals = set()
        self.finfo[fid] = (m.tree, None, m)
        m.live_ns = st.frames[fid]
        prev = self.evaluating_static
        self.evaluating_static = True
        obs, self.observers = self.observers, []
        for s in m.tree.body:
            self.excs.append([])
            outs = self.stmt(s, st, fr)
            self.excs.pop()
            nx = [o for o in outs if o[0] == NEXT]
            if nx:
                st = nx[0][1]
            self.flush_static(st)
            m.live_ns = st.frames[fid]
        self.observers = obs
        self.evaluating_static = prev
        m.ns = st.frames[fid]
        self.flush_static(st)
        m.evaluating = False

    def flush_static(self, st):
        for a, r in st.heap.items():
            self.static_heap[a] = r
        for f, d in st.frames.items():
            if f[0] != "m":
                self.static_frames[f] = dict(d)

    def module_ns(self, m):
        if m.ns is not None:
            return m.ns
        if m.evaluating:
            return m.live_ns
        self.eval_module(m)
        return m.ns

    def index_classes(self):
        for m in self.p.modules.values():
            for v in list(m.ns.values()):
                if isinstance(v, Cl):
                    self.classes[v.ci.qual] = v.ci
                    for w in v.ci.ns.values():
                        if isinstance(w, Cl):
                            self.classes[w.ci.qual] = w.ci

    # ------------------------------------------------------------ class helpers
    def cls(self, qual):
        if qual not in self.classes:
            raise AnalysisBroken("class %s not found" % qual)
        return self.classes[qual]

    def find(self, dotted):
        """Value of 'module:Name.attr'."""
        mod, _, rest = dotted.partition(":")
        if mod not in self.p.modules:
            raise AnalysisBroken("module %s not found" % mod)
        ns = self.module_ns(self.p.modules[mod])
        parts = rest.split(".")
        if parts[0] not in ns:
            raise AnalysisBroken("%s not found" % dotted)
        v = ns[parts[0]]
        for x in parts[1:]:
            if isinstance(v, Cl):
                _, v = v.ci.lookup(x)
            else:
                v = None
            if v is None:
                raise AnalysisBroken("%s not found" % dotted)
        return v

    def expand_class(self, q):
        """Exact class names of all known (sub)classes of q."""
        r = self.subclasses_cache.get(q)
        if r is None:
            out = {q}
            ci = self.classes.get(q)
            for name, c in self.classes.items():
                if ci is not None:
                    if c.issub(ci):
                        out.add(name)
                elif c.issub(q):
                    out.add(name)
            for n in EXTRA_SUB.get(q, ()):
                out |= self.expand_class(n)
            r = frozenset(out)
            if self.classes and not self.evaluating_static:
                self.subclasses_cache[q] = r
        return r

    def tsub(self, name, target):
        """Is exact class `name` a subclass of `target` (names)?"""
        if name == target or target == "builtins.object":
            return True
        ci = self.classes.get(name)
        if ci is not None:
            t = self.classes.get(target)
            return ci.issub(t if t is not None else target)
        if target in self.classes:
            return False
        return ext_issub(name, target)

    # ------------------------------------------------------------ heap
    def rec(self, st, a):
        r = st.heap.get(a)
        if r is None:
            r = self.static_heap.get(a)
        return r

    def alloc(self, st, fr, node, rec, tag=""):
        a = ("o", fr.path, node._id + tag)
        if self.exact:
            while a in st.heap:
                a = a[:2] + (a[2] + "'",)
        elif a in st.heap:
            old = ("old", fr.path, node._id + tag)
            if old in st.heap:
                live = st.reachable()
                if a not in live:
                    del st.heap[a]
                elif old not in live:
                    del st.heap[old]
                    st.rename_addr(a, old)
                else:
                    merge_into(st, a, old)
            else:
                st.rename_addr(a, old)
        st.heap[a] = rec
        return Obj(a)

    # ------------------------------------------------------------ exceptions
    def raise_(self, st, val, node=None, fr=None):
        self.excs[-1].append((st, val))
        if node is not None:
            st.trail = (st.trail + ((self.where(node, fr), "raises %s" % self.show_exc(st, val)),))[-40:]
            self.emit("on_raise", st, val, node, fr)

    def show_exc(self, st, val):
        if isinstance(val, Ex):
            return val.q.split(".")[-1]
        if isinstance(val, Obj):
            r = self.rec(st, val.a)
            if isinstance(r, Inst) and r.ci:
                return r.ci.name
        return "exception"

    def rx(self, st, q, node, fr, *args):
        self.raise_(st, Ex("builtins." + q, tuple(args)), node, fr)

    # ------------------------------------------------------------ statements
    def block(self, stmts, sts, fr):
        out = []
        cur = sts
        live = None
        if isinstance(fr.node, (ast.FunctionDef, ast.AsyncFunctionDef)) and not self.exact:
            live = scopes.liveness(fr.node)
        for s in stmts:
            nxt = []
            for st in cur:
                for o in self.stmt(s, st, fr):
                    if o[0] == NEXT:
                        nxt.append(o[1])
                    else:
                        out.append(o)
            if live is not None:
                la = live.get(id(s))
                if la is not None:
                    loc = scopes.local_names(fr.node)
                    for st in nxt:
                        d = st.frames.get(fr.fid)
                        if d:
                            for n in [n for n in d if n in loc and n not in la]:
                                del d[n]
            cur = self.compact(nxt)
            if not cur:
                break
        out.extend((NEXT, st, None) for st in cur)
        return out

    def stmt(self, s, st, fr):
        self.stats["stmts"] += 1
        if self.deadline and self.stats["stmts"] % 256 == 0 and time.time() > self.deadline:
            raise Budget()
        self.excs.append([])
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            self.unsup(s, fr, "statement " + type(s).__name__)
            outs = [(NEXT, st, None)]
        else:
            outs = m(s, st, fr)
        ex = self.excs.pop()
        for (x, v) in ex:
            d = x.frames.get(fr.fid)
            if d and any(n[:2] in ("%p", "%n") for n in d):
                x.frames[fr.fid] = {n: w for n, w in d.items() if n[:2] not in ("%p", "%n")}
            outs.append((EXC, x, v))
        return outs

    def compact(self, sts):
        n = len(sts)
        if n > self.stats["maxstates"]:
            self.stats["maxstates"] = n
        if n < 2 or self.exact:
            return sts
        for s in sts:
            s.gc()
        groups = {}
        for s in sts:
            groups.setdefault(s.key(False), []).append(s)
        out = []
        for g in groups.values():
            out.extend(merge_chars(g))
        if len(out) > 1:
            out = self.merge_facts(out)
        if len(out) > self.maxdisj:
            out = self.joinall(out)
        return out

    def merge_facts(self, sts):
        """Exact merge of states that differ only in the facts of one symbolic value."""
        groups = {}
        for s in sts:
            k = (frozenset((f, frozenset(d.items())) for f, d in s.frames.items()),
                 frozenset(s.heap.items()), frozenset(s.ghost.items()), frozenset(s.ranges.items()),
                 s.cons.fs, s.approx, frozenset(s.chars.items()))
            groups.setdefault(k, []).append(s)
        out = []
        for g in groups.values():
            changed = len(g) > 1
            while changed:
                changed = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i].facts, g[j].facts
                        diff = [t for t in set(a) | set(b) if a.get(t) != b.get(t)]
                        if len(diff) == 0:
                            del g[j]
                            changed = True
                            break
                        if len(diff) == 1:
                            t = diff[0]
                            if joining.KEYFACTS is not None and joining.KEYFACTS(t):
                                continue
                            x, y = a.get(t, NOFACT), b.get(t, NOFACT)
                            f = join_fact(x, y)
                            if f == NOFACT:
                                a.pop(t, None)
                            else:
                                a[t] = f
                            del g[j]
                            changed = True
                            break
                    if changed:
                        break
            out.extend(g)
        return out

    def joinall(self, sts):
        """Join states of equal shape (bounds the number of disjuncts)."""
        groups = {}
        order = []
        for s in sts:
            s.gc()
            k = shape(s, set())
            if k not in groups:
                s.flatten()
                s.project_syms()
                groups[k] = (s, set())
                order.append(k)
            else:
                g, syms = groups[k]
                s.project_syms()
                R, ch, new, j = join(g, s, syms)
                self.stats["joins"] += 1
                if ch:
                    R.project_syms()
                    groups[k] = (R, syms | new)
        return [groups[k][0] for k in order]

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [(NEXT, st, None)]
        return [(NEXT, x, None) for x, _ in self.ev(s.value, st, fr)]

    def st_Pass(self, s, st, fr):
        return [(NEXT, st, None)]

    def st_Global(self, s, st, fr):
        return [(NEXT, st, None)]

    st_Nonlocal = st_Global

    def st_Break(self, s, st, fr):
        return [(BRK, st, None)]

    def st_Continue(self, s, st, fr):
        return [(CNT, st, None)]

    def st_Return(self, s, st, fr):
        if s.value is None:
            return [(RET, st, NONE_)]
        return [(RET, x, v) for x, v in self.ev(s.value, st, fr)]

    def st_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.frames.get(fr.fid, {}).get("%exc")
            self.raise_(st, cur if cur is not None else Sy(("exc", "?")), s, fr)
            return []
        for x, v in self.ev(s.exc, st, fr):
            if isinstance(v, Cl) or (isinstance(v, Ext)):
                for y, w in self.call(v, [], [], x, s.exc, fr):
                    self.raise_(y, w, s, fr)
            else:
                self.raise_(x, v, s, fr)
        return []

    def st_Assert(self, s, st, fr):
        T, F = self.cond(s.test, st, fr)
        for x in F:
            self.rx(x, "AssertionError", s, fr)
        return [(NEXT, x, None) for x in T]

    def st_Assign(self, s, st, fr):
        out = []
        for x, v in self.ev(s.value, st, fr):
            cur = [x]
            for t in s.targets:
                nx = []
                for y in cur:
                    nx.extend(self.assign(t, v, y, fr))
                cur = nx
            out.extend((NEXT, y, None) for y in cur)
        return out

    def st_AnnAssign(self, s, st, fr):
        if s.value is None:
            if isinstance(fr.cls, ClassInfo) and isinstance(s.target, ast.Name) and fr.fid[0] == "c":
                fr.cls.ann[s.target.id] = s.annotation
            return [(NEXT, st, None)]
        if fr.fid[0] == "c" and isinstance(s.target, ast.Name):
            fr.cls.ann[s.target.id] = s.annotation
        out = []
        for x, v in self.ev(s.value, st, fr):
            out.extend((NEXT, y, None) for y in self.assign(s.target, v, x, fr))
        return out

    def st_AugAssign(self, s, st, fr):
        out = []
        t = s.target
        load = as_load(t)
        for x, v in self.ev(load, st, fr):
            for y, w in self.ev(s.value, x, fr):
                for z, r in self.binop(s.op, v, w, y, s, fr, inplace=True):
                    out.extend((NEXT, q, None) for q in self.assign(t, r, z, fr))
        return out

    def st_Delete(self, s, st, fr):
        cur = [st]
        for t in s.targets:
            nx = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.frames[fr.fid].pop(t.id, None)
                    nx.append(x)
                elif isinstance(t, ast.Subscript):
                    for y, b in self.ev(t.value, x, fr):
                        for z, i in self.ev_index(t.slice, y, fr):
                            nx.extend(self.delitem(b, i, z, s, fr))
                elif isinstance(t, ast.Attribute):
                    for y, b in self.ev(t.value, x, fr):
                        nx.extend(self.delattr_(b, t.attr, y, s, fr))
                else:
                    nx.append(x)
            cur = nx
        return [(NEXT, x, None) for x in cur]

    def st_If(self, s, st, fr):
        T, F = self.cond(s.test, st, fr)
        out = []
        if T:
            for x in T:
                x.trail = (x.trail + ((self.where(s, fr), "if true"),))[-40:]
            out.extend(self.block(s.body, self.compact(T), fr))
        if F:
            for x in F:
                x.trail = (x.trail + ((self.where(s, fr), "if false"),))[-40:]
            out.extend(self.block(s.orelse, self.compact(F), fr))
        return out

    def st_While(self, s, st, fr):
        def step(x):
            T, F = self.cond(s.test, x, fr)
            outs = []
            for ob in self.ghosters:
                for t in T:
                    g = ob.loop_ghost(self, s, fr, t)
                    if g:
                        t.ghost[("prog", s._id)] = g
            if T:
                outs.extend(self.block(s.body, self.compact(T), fr))
            outs = [(CNT if o[0] == NEXT else o[0], o[1], o[2]) for o in outs]
            for x in F:
                outs.append((NEXT, x, None))
            return outs
        self.excs.append([])
        outs = self.fix(s, fr, [st], step)
        self.excs[-2].extend(self.excs.pop())
        return self.finish_loop(s, outs, fr)

    def finish_loop(self, s, outs, fr):
        res = []
        for o in outs:
            if o[0] == NEXT:
                if s.orelse:
                    res.extend(self.block(s.orelse, [o[1]], fr))
                else:
                    res.append(o)
            elif o[0] == BRK:
                res.append((NEXT, o[1], None))
            else:
                res.append(o)
        return res

    def st_For(self, s, st, fr):
        outs = []
        for x, it in self.ev(s.iter, st, fr):
            def body(y, e):
                r = []
                for z in self.assign(s.target, e, y, fr):
                    r.extend(self.block(s.body, [z], fr))
                return r
            outs.extend(self.iterate(it, x, fr, s, body))
        return self.finish_loop(s, outs, fr)

    st_AsyncFor = None

    def st_FunctionDef(self, s, st, fr):
        f = Fn(s, fr.mod, fr.fid if fr.fid[0] not in ("m", "c") else None, fr.cls if fr.fid[0] == "c" else None)
        cur = [(st, f)]
        ds = list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None]
        nx = []
        for x, vs in self.evs(ds, st, fr):
            nd = len(s.args.defaults)
            kwd = {}
            i = nd
            for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
                if d is not None:
                    kwd[a.arg] = vs[i]
                    i += 1
            self.fn_defaults[f] = (vs[:nd], kwd)
            nx.append((x, f))
            break
        cur = nx or cur
        for d in reversed(s.decorator_list):
            nx = []
            for x, v in cur:
                for y, dv in self.ev(d, x, fr):
                    nx.extend(self.decorate(dv, v, y, d, fr))
            cur = nx
        out = []
        for x, v in cur:
            self.bind(s.name, v, x, fr)
            out.append((NEXT, x, None))
        return out

    def decorate(self, dv, v, st, node, fr):
        if isinstance(dv, Ext):
            q = dv.q
            if q == "builtins.property":
                return [(st, Prop(v))]
            if q == "builtins.staticmethod":
                return [(st, SM(v))]
            if q == "builtins.classmethod":
                return [(st, CM(v))]
            if q == "contextlib.contextmanager":
                return [(st, CMF(v))]
            if q in ("typing.overload", "typing_extensions.overload", "abc.abstractmethod", "typing.final",
                     "functools.lru_cache", "functools.cache"):
                if q.startswith("functools"):
                    self.unsup(node, fr, "cache decorator")
                return [(st, v)]
            if q in ("attr.s", "attr.attrs", "attr.define", "attr.mutable", "attr.frozen", "dataclasses.dataclass") \
                    and isinstance(v, Cl):
                v.ci.attrs = True
                return [(st, v)]
            if q == "functools.wraps":
                return [(st, v)]
        if isinstance(dv, Part) and isinstance(dv.f, Ext):
            if dv.f.q in ("attr.s", "attr.attrs", "attr.define", "attr.frozen", "dataclasses.dataclass") \
                    and isinstance(v, Cl):
                v.ci.attrs = True
                return [(st, v)]
            if dv.f.q == "functools.wraps":
                return [(st, v)]
            if dv.f.q in ("functools.lru_cache", "functools.singledispatch"):
                self.unsup(node, fr, "cache decorator")
                return [(st, v)]
        if isinstance(dv, BM) and isinstance(dv.base, Prop):
            return [(st, dv.base)]
        return self.call(dv, [v], [], st, node, fr)

    def st_ClassDef(self, s, st, fr):
        ci = ClassInfo(s.name, (fr.cls.qual + "." if fr.fid[0] == "c" else fr.mod.name + ".") + s.name, fr.mod, s)
        cur = st
        for b in s.bases:
            r = self.ev(b, cur, fr)
            if r:
                cur, v = r[0]
                ci.bases.append(v)
        fid = ("c", ci.qual)
        cfr = Frame(fid, s, fr.mod, ci, fr.path + ("class " + s.name,), fr.fid if fr.fid[0] != "m" else None)
        s._locals = set()
        self.finfo[fid] = (s, cfr.parent, fr.mod)
        cur.frames[fid] = {}
        # the class is visible to its own methods under its name
        for x in s.body:
            outs = [o for o in self.stmt(x, cur, cfr) if o[0] == NEXT]
            if outs:
                cur = outs[0][1]
            ci.ns = dict(cur.frames.get(fid, {}))
        ci.ns = dict(cur.frames.pop(fid, {}))
        self.classes.setdefault(ci.qual, ci)
        c = [(cur, Cl(ci))]
        for d in reversed(s.decorator_list):
            nx = []
            for x, v in c:
                for y, dv in self.ev(d, x, fr):
                    nx.extend(self.decorate(dv, v, y, d, fr))
            c = nx
        out = []
        for x, v in c:
            self.bind(s.name, v, x, fr)
            out.append((NEXT, x, None))
        return out

    def st_Import(self, s, st, fr):
        for al in s.names:
            if al.asname:
                v = self.import_mod(al.name)
                self.bind(al.asname, v, st, fr)
            else:
                top = al.name.split(".")[0]
                self.import_mod(al.name)
                self.bind(top, Md(top) if any(m == top or m.startswith(top + ".") for m in self.p.modules)
                          else Ext(top), st, fr)
        return [(NEXT, st, None)]

    def import_mod(self, name):
        if name in self.p.modules:
            self.eval_module(self.p.modules[name])
            return Md(name)
        if any(m.startswith(name + ".") for m in self.p.modules):
            return Md(name)
        return Ext(name)

    def st_ImportFrom(self, s, st, fr):
        base = s.module or ""
        if s.level:
            pk = fr.mod.name.split(".")
            if not fr.mod.is_pkg:
                pk = pk[:-1]
            pk = pk[: len(pk) - (s.level - 1)]
            base = ".".join(pk + ([s.module] if s.module else []))
        m = self.import_mod(base)
        for al in s.names:
            n = al.asname or al.name
            if isinstance(m, Md):
                sub = base + "." + al.name
                v = None
                if base in self.p.modules:
                    v = self.module_ns(self.p.modules[base]).get(al.name)
                if v is None and sub in self.p.modules:
                    v = self.import_mod(sub)
                if v is None:
                    v = Sy(("import", base, al.name))
            else:
                v = self.ext_const(base + "." + al.name)
            self.bind(n, v, st, fr)
        return [(NEXT, st, None)]

    def st_With(self, s, st, fr):
        return self.with_items(s, list(s.items), st, fr)

    def with_items(self, s, items, st, fr):
        if not items:
            return self.block(s.body, [st], fr)
        it = items[0]
        outs = []
        for x, v in self.ev(it.context_expr, st, fr):
            def inner(y, e):
                if it.optional_vars is not None:
                    r = []
                    for z in self.assign(it.optional_vars, e, y, fr):
                        r.extend(self.with_items(s, items[1:], z, fr))
                    return r
                return self.with_items(s, items[1:], y, fr)
            outs.extend(self.with_value(s, v, x, fr, inner))
        return outs

    def with_value(self, s, v, st, fr, inner):
        if isinstance(v, CMgr):
            return self.run_generator(v, st, fr, s, inner, cm=True)
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, Inst) and r.ci is not None and r.ci.lookup("__enter__")[1] is not None:
                outs = []
                for y, e in self.callmethod(v, "__enter__", [], st, s, fr):
                    for o in inner(y, e):
                        if o[0] == EXC:
                            val = o[2]
                            args = [Sy(("exctype",)), val if isinstance(val, (Obj, Sy)) else Sy(("excval",)), Sy(("tb",))]
                            for z, rv in self.callmethod(v, "__exit__", args, o[1], s, fr):
                                for w, b in self.truth(rv, z):
                                    if b:
                                        outs.append((NEXT, w, None))
                                    else:
                                        outs.append((EXC, w, val))
                        else:
                            for z, rv in self.callmethod(v, "__exit__", [NONE_, NONE_, NONE_], o[1], s, fr):
                                outs.append((o[0], z, o[2]))
                return outs
        # external context manager
        outs = []
        self.emit("on_enter", st, v, s, fr)
        e = Sy(("enter", v, s._id)) if not isinstance(v, Sy) or not self.is_file(st, v) else v
        if isinstance(v, Sy) and self.is_file(st, v):
            e = v
        for o in inner(st, e):
            self.emit("on_exit", o[1], v, s, fr, o[0])
            if o[0] == EXC and isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q == "contextlib.suppress":
                caught, un = self.match_exc(o[1], o[2], list(v.args))
                outs.extend((NEXT, y, None) for y, _ in caught)
                outs.extend((EXC, y, w) for y, w in un)
                continue
            outs.append(o)
        return outs

    def is_file(self, st, v):
        t = v.t
        return isinstance(t, tuple) and t and t[0] == "c" and isinstance(t[1], tuple) and "open" in str(t[1])

    def st_Try(self, s, st, fr):
        st.trail = (st.trail + ((self.where(s, fr), "try"),))[-40:]
        self.emit("on_try", st, s, fr)
        outs = self.block(s.body, [st], fr)
        res = []
        for o in outs:
            if o[0] == NEXT and s.orelse:
                res.extend(self.block(s.orelse, [o[1]], fr))
            elif o[0] == EXC:
                res.extend(self.handle(s, o, fr))
            else:
                res.append(o)
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.block(s.finalbody, [o[1]], fr):
                    if f[0] == NEXT:
                        fin.append((o[0], f[1], o[2]))
                    else:
                        fin.append(f)
            res = fin
        return res

    st_TryStar = st_Try

    def handle(self, s, o, fr):
        st, val = o[1], o[2]
        if isinstance(val, GX):
            return [o]
        res = []
        pending = [(st, val)]
        for h in s.handlers:
            nxt = []
            for x, v in pending:
                if h.type is None:
                    caught, un = [(x, v)], []
                else:
                    r = self.ev(h.type, x, fr)
                    if not r:
                        caught, un = [], []
                    else:
                        x, tv = r[0]
                        if isinstance(tv, Tup):
                            types = list(tv.items)
                        elif isinstance(tv, Obj) and isinstance(self.rec(x, tv.a), LRec):
                            types = self.rec(x, tv.a).elems()
                        else:
                            types = [tv]
                        caught, un = self.match_exc(x, v, types)
                nxt.extend(un)
                for y, w in caught:
                    self.emit("on_catch", y, w, h, s, fr)
                    d = y.frames[fr.fid]
                    prev = d.get("%exc")
                    d["%exc"] = w
                    if h.name:
                        d[h.name] = w
                    y.trail = (y.trail + ((self.where(h, fr), "handler"),))[-40:]
                    for b in self.block(h.body, [y], fr):
                        dd = b[1].frames.get(fr.fid)
                        if dd is not None:
                            if prev is None:
                                dd.pop("%exc", None)
                            else:
                                dd["%exc"] = prev
                            if h.name and b[0] == NEXT:
                                dd.pop(h.name, None)
                        res.append(b)
            pending = nxt
        res.extend((EXC, x, v) for x, v in pending)
        return res

    def class_name(self, v):
        if isinstance(v, Cl):
            return v.ci.qual
        if isinstance(v, Ext):
            return v.q
        return None

    def match_exc(self, st, val, types):
        names = [self.class_name(t) for t in types]
        if isinstance(val, Ex):
            ok = any(n is not None and self.tsub(val.q, n) for n in names)
            if not ok and any(n is None for n in names):
                return [(st.fork(), val)], [(st, val)]
            return ([(st, val)], []) if ok else ([], [(st, val)])
        if isinstance(val, Obj):
            r = self.rec(st, val.a)
            if isinstance(r, Inst) and r.ci is not None:
                ok = any(n is not None and self.tsub(r.ci.qual, n) for n in names)
                return ([(st, val)], []) if ok else ([], [(st, val)])
        if isinstance(val, Sy):
            if any(n in ("builtins.Exception", "builtins.BaseException") for n in names):
                return [(st, val)], []
            f = st.fact(val.t)
            if f.neg and any(n is not None and n in f.neg for n in names) and len(names) == 1:
                return [], [(st, val)]
            c = st.fork()
            known = frozenset(n for n in names if n)
            c.facts[val.t] = f.with_(types=frozenset((n, ()) for n in known)) if known else f
            st.facts[val.t] = f.with_(neg=f.neg | known)
            return [(c, val)], [(st, val)]
        return [(st.fork(), val)], [(st, val)]

    # ------------------------------------------------------------ loops
    def fix(self, node, fr, sts, step, live=None):
        if self.exact:
            return self.exact_loop(node, fr, sts, step)
        heads = {}
        loose = set()
        work = [(s, None) for s in sts]
        head_live = getattr(node, "_head", None) if isinstance(node, (ast.While, ast.For)) else None
        if isinstance(fr.node, (ast.FunctionDef,)):
            scopes.liveness(fr.node)
            head_live = getattr(node, "_head", None)
        iters = 0
        self.emit("loop_enter", node, fr)
        dirty = []
        while work or dirty:
            if not work:
                key = dirty.pop(0)
                h = heads[key]
                h.runs += 1
                iters += 1
                if iters > 400:
                    self.unsup(node, fr, "loop fixpoint budget")
                    break
                if h.runs > 40:
                    self.unsup(node, fr, "loop head does not stabilise")
                    continue
                self.excs.append([])
                base = h.state.fork()
                outs = step(base)
                ex = self.excs.pop()
                if self.ghosters:
                    self.steps(node, fr, outs, ex)
                h.outs = [o for o in outs if o[0] != CNT] + [(EXC, x, v) for x, v in ex]
                for b in self.compact([o[1] for o in outs if o[0] == CNT]):
                    work.append((b, key))
                continue
            st, src = work.pop(0)
            d = st.frames.get(fr.fid)
            if head_live is not None and d:
                loc = scopes.local_names(fr.node)
                keep = head_live | fr.node._always
                for n in [n for n in d if n in loc and n not in keep and not n.startswith("%")]:
                    del d[n]
            st.gc()
            st.flatten()
            st.project_syms()
            key = shape(st, loose)
            h = heads.get(key)
            if h is None:
                h = heads[key] = Head(st)
                self.stats["heads"] += 1
                if src is not None:
                    self.emit("on_backedge", node, fr, src, heads[src].state if src in heads else None, key, st, None)
                new_loose = self.loosen(heads, loose)
                if new_loose:
                    loose |= new_loose
                    work = [(hh.state, None) for hh in heads.values()] + work
                    heads = {}
                    dirty = []
                    self.emit("loop_reset", node, fr)
                    continue
                dirty.append(key)
            else:
                if src is not None:
                    self.emit("on_backedge", node, fr, src, heads[src].state if src in heads else None, key, st, None)
                self.stats["joins"] += 1
                R, changed, new, j = join(h.state, st, h.syms)
                if not changed:
                    continue
                h.state = R
                h.syms |= new
                if key not in dirty:
                    dirty.append(key)
        self.emit("loop_done", node, fr, heads)
        res = []
        for h in heads.values():
            res.extend(h.outs)
        # merge equal outcomes
        return self.compact_outs(res)

    def steps(self, node, fr, outs, ex):
        """Tell the observers which states go round once more."""
        gk = ("prog", node._id)
        for o in outs:
            g = o[1].ghost.pop(gk, None)
            if o[0] == CNT and g is not None and isinstance(node, ast.While) and self.final:
                obs, self.observers = self.observers, []
                gh, self.ghosters = self.ghosters, []
                self.excs.append([])
                T, _ = self.cond(node.test, o[1].fork(), fr)
                self.excs.pop()
                self.observers, self.ghosters = obs, gh
                for t in T:
                    self.emit("on_step", node, fr, t, g)
        for x, v in ex:
            x.ghost.pop(gk, None)

    def compact_outs(self, outs):
        groups = {}
        order = []
        for o in outs:
            k = (o[0], o[2])
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(o[1])
        res = []
        for k in order:
            g = groups[k]
            if len(g) > 1:
                for s in g:
                    s.hidden = (k[1],) if isinstance(k[1], V) else ()
                g = self.compact(g)
                for s in g:
                    s.hidden = ()
            res.extend((k[0], s, k[1]) for s in g)
        return res

    def loosen(self, heads, loose):
        """Slots with too many distinct constants."""
        vals = {}
        for h in heads.values():
            for fid, d in h.state.frames.items():
                for n, v in d.items():
                    slot = ("f", fid, n)
                    if slot in loose:
                        continue
                    if isinstance(v, K) and type(v.v) in (int, str):
                        vals.setdefault((slot, type(v.v)), set()).add(v)
                    elif isinstance(v, Sy):
                        vals.setdefault((slot, Sy), set()).add(v)
        out = {s for (s, t), vs in vals.items() if len(vs) > (2 if t is str else 5)}
        if not out and len(heads) > 40:
            best = max(((len(vs), s) for (s, t), vs in vals.items()), default=None, key=lambda x: x[0])
            if best and best[0] > 1:
                out = {best[1]}
        return out

    # ------------------------------------------------------------ conditions
    def cond(self, e, st, fr):
        """(states where true, states where false)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done = [st], []
            for v in e.values:
                nx = []
                for x in cur:
                    T, F = self.cond(v, x, fr)
                    nx.extend(T if isand else F)
                    done.extend(F if isand else T)
                cur = nx
            return (cur, done) if isand else (done, cur)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            T, F = self.cond(e.operand, st, fr)
            return F, T
        T, F = [], []
        for x, v in self.ev(e, st, fr):
            for y, b in self.truth(v, x, e, fr):
                (T if b else F).append(y)
        return T, F

    def truth(self, v, st, node=None, fr=None):
        """[(state, bool)]"""
        t = type(v)
        if t is K:
            return [(st, bool(v.v))]
        if t in (Ch, Fn, Bm, Cl, Md, Ext, Gen, Nat, BM, Ex, CMF, Part, Sup):
            return [(st, True)]
        if t is Tup:
            return [(st, bool(v.items))]
        if t is St:
            n = strs.nonempty(v, st)
            if n is not None:
                return [(st, n)]
            y = st.fork()
            if node is not None and fr is not None:
                self.refine(node, K(""), y, fr)
                r = self.nonempty_of(v, st)
                if r is not None:
                    self.refine(node, r, st, fr)
            self.note_len(v, st, y)
            return [(st, True), (y, False)]
        if t is Src:
            y = st.fork()
            y.assume(len_sym(v.name).neg())
            st.assume(len_sym(v.name) - 1)
            return [(st, True), (y, False)]
        if t is I:
            return self.split_zero(v.e, st)
        if t is Od:
            cs = st.char(v.src, v.p)
            return [(st, True)] if 0 not in cs else [(st.fork(), True), (st, False)]
        if t is Obj:
            r = self.rec(st, v.a)
            if isinstance(r, LRec):
                if r.minlen() > 0:
                    return [(st, True)]
                if r.exact():
                    return [(st, False)]
                y = st.fork()
                y.heap[v.a] = LRec(org=None)
                z = st
                z.heap[v.a] = LRec(r.pre, r.tail, r.pairs, r.plast, r.org, 1)
                return [(z, True), (y, False)]
            if isinstance(r, DRec):
                if r.items:
                    return [(st, True)]
                if r.rest is None and r.org is None:
                    return [(st, False)]
                return [(st.fork(), True), (st, False)]
            if isinstance(r, SRec):
                if r.items or r.some:
                    return [(st, True)]
                if r.rest is None and r.org is None:
                    return [(st, False)]
                return [(st.fork(), True), (st, False)]
            if isinstance(r, Inst):
                if r.ci is not None:
                    for nm in ("__bool__", "__len__"):
                        if r.ci.lookup(nm)[1] is not None:
                            res = []
                            for y, w in self.callmethod(v, nm, [], st, node, fr):
                                res.extend(self.truth(w, y))
                            return res
                    if r.nt is not None:
                        return self.truth(r.nt, st)
                    if any(b in ("builtins.int", "builtins.float", "decimal.Decimal", "builtins.str")
                           for b in r.ci.ext_bases()):
                        return [(st.fork(), True), (st, False)]
                return [(st, True)]
            return [(st, True)]
        if t is Sy:
            f = st.fact(v.t)
            if f.const is not None:
                return [(st, bool(f.const.v))]
            if f.truth is not None:
                return [(st, f.truth)]
            can_f = self.can_be_falsy(f)
            can_t = self.can_be_truthy(f)
            out = []
            if can_t:
                x = st.fork()
                ty = f.types
                if ty is not None:
                    ty = frozenset(a for a in ty if a[0] != "builtins.NoneType")
                x.facts[v.t] = f.with_(types=ty, truth=True, neg=f.neg | {"builtins.NoneType"})
                out.append((x, True))
            if can_f:
                ty = f.types
                if ty is not None:
                    ty = frozenset(a for a in ty if self.type_can_be_falsy(a[0]))
                if ty is not None and ty == frozenset([("builtins.NoneType", ())]):
                    st.facts[v.t] = f.with_(types=ty, truth=False, const=NONE_)
                else:
                    st.facts[v.t] = f.with_(types=ty, truth=False)
                out.append((st, False))
            return out
        return [(st.fork(), True), (st, False)]

    def note_len(self, v, stT, stF):
        """Truth of a string made of one source slice tells about positions."""
        if len(v.items) == 1 and v.items[0][0] == "sl":
            a = v.items[0]
            stT.assume(a[3] - a[2] - 1)
            stF.assume(a[2] - a[3])

    def nonempty_of(self, v, st):
        items = v.items
        if len(items) == 1:
            a = items[0]
            if a[0] == "b":
                return strs.mk((("b", a[1], max(1, a[2]), a[3]),))
            if a[0] == "*":
                return strs.mk((("*", a[1], 1) + a[3:],))
            return None
        x = strs.debrick(items, st)
        return None

    def type_can_be_falsy(self, name):
        ci = self.classes.get(name)
        if ci is not None:
            if ci.lookup("__bool__")[1] is not None or ci.lookup("__len__")[1] is not None:
                return True
            return any(b in ("builtins.int", "builtins.float", "decimal.Decimal", "builtins.str", "builtins.list",
                             "builtins.dict", "?unknown") for b in ci.ext_bases())
        return name not in ("builtins.function", "datetime.date", "datetime.datetime", "builtins.type",
                            "babel.core.Locale", "babel.Locale")

    def can_be_falsy(self, f):
        if f.types is None:
            return True
        return any(self.type_can_be_falsy(a[0]) for a in f.types)

    def can_be_truthy(self, f):
        if f.types is None:
            return True
        return any(a[0] != "builtins.NoneType" for a in f.types)

    def split_zero(self, e, st):
        if st.entails(e - 1) or st.entails(e.neg() - 1):
            return [(st, True)]
        if st.entails(e) and st.entails(e.neg()):
            return [(st, False)]
        y = st.fork()
        out = []
        pos = st.entails(e)
        if pos:
            if st.assume(e - 1):
                out.append((st, True))
        else:
            out.append((st, True))
        if y.assume(e) and y.assume(e.neg()):
            out.append((y, False))
        return out

    def refine(self, node, val, st, fr):
        """Replace the value of an lvalue-like expression by a more precise one."""
        if isinstance(node, ast.NamedExpr):
            node = node.target
        if isinstance(node, ast.Name):
            fid = self.find_frame(node.id, st, fr)
            if fid is not None and fid in st.frames and node.id in st.frames[fid]:
                st.frames[fid][node.id] = val
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
            fid = self.find_frame(node.value.id, st, fr)
            if fid is not None and fid in st.frames:
                b = st.frames[fid].get(node.value.id)
                if isinstance(b, Obj):
                    r = st.heap.get(b.a)
                    if isinstance(r, Inst) and not r.many and node.attr in r.f:
                        st.heap[b.a] = r.set(node.attr, val)

    # ------------------------------------------------------------ names
    def find_frame(self, name, st, fr):
        if name in scopes.local_names(fr.node) and fr.fid[0] != "c":
            return fr.fid
        fid = fr.parent
        while fid is not None:
            node, parent, mod = self.finfo[fid]
            if fid[0] not in ("m", "c") and name in scopes.local_names(node):
                return fid
            fid = parent
        return None

    def ev_Name(self, e, st, fr):
        name = e.id
        if fr.fid[0] in ("c", "m"):
            d = st.frames.get(fr.fid, {})
            if name in d:
                return [(st, d[name])]
        fid = self.find_frame(name, st, fr)
        if fid is not None:
            d = st.frames.get(fid)
            if d is None or name not in d:
                d2 = self.static_frames.get(fid)
                if d2 is not None and name in d2:
                    return [(st, d2[name])]
                if d is None:
                    return [(st, Top("frame"))]
                self.rx(st, "UnboundLocalError", e, fr, K(name))
                return []
            return [(st, d[name])]
        return [(st, self.global_name(name, fr, e))]

    def global_name(self, name, fr, e):
        ns = self.module_ns(fr.mod)
        if name in ns:
            return ns[name]
        if hasattr(__builtins__, name) if not isinstance(__builtins__, dict) else name in __builtins__:
            return Ext("builtins." + name)
        if fr.mod.evaluating:
            return Sy(("late", fr.mod.name, name))
        self.unsup(e, fr, "name " + name)
        return Top("name " + name)

    def bind(self, name, v, st, fr):
        if isinstance(fr.node, (ast.FunctionDef,)) and name not in scopes.local_names(fr.node):
            fid = self.find_frame(name, st, fr)
            if fid is not None and fid in st.frames:
                st.frames[fid][name] = v
                return
            if fid is None:
                self.emit("on_global_write", st, name, v, fr)
                return
        if fr.fid[0] not in ("f", "T", "m", "c", "g") and name not in scopes.local_names(fr.node):
            fid = self.find_frame(name, st, fr)
            if fid is not None and fid in st.frames:
                st.frames[fid][name] = v
                return
        st.frames.setdefault(fr.fid, {})[name] = v

    def assign(self, t, v, st, fr):
        """[states]"""
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, fr)
        if isinstance(t, ast.Attribute):
            out = []
            for x, b in self.ev(t.value, st, fr):
                out.extend(self.setattr_(b, t.attr, v, x, t, fr))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for x, b in self.ev(t.value, st, fr):
                for y, i in self.ev_index(t.slice, x, fr):
                    out.extend(self.setitem(b, i, v, y, t, fr))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        self.unsup(t, fr, "assignment target")
        return [st]

    def unpack(self, t, v, st, fr):
        n = len(t.elts)
        star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
        items = self.seq_items(v, st)
        if items is not None and not star:
            if len(items) != n:
                self.rx(st, "ValueError", t, fr, K("unpack"))
                return []
            cur = [st]
            for e, x in zip(t.elts, items):
                cur = [z for y in cur for z in self.assign(e, x, y, fr)]
            return cur
        cur = [st]
        for i, e in enumerate(t.elts):
            x = Sy(("i", v.t, i)) if isinstance(v, Sy) else Top("unpack")
            if isinstance(v, Sy) and not isinstance(e, ast.Starred):
                ty = self.elem_types(st, v)
                if ty is not None:
                    st.facts.setdefault(x.t, Fact(ty))
            nx = []
            for y in cur:
                if isinstance(v, Sy) and x.t not in y.facts:
                    ty = self.elem_types(y, v, i)
                    if ty is not None:
                        y.facts[x.t] = Fact(ty)
                nx.extend(self.assign(e, x, y, fr))
            cur = nx
        if isinstance(v, Sy) and getattr(self, "unpack_may_fail", False):
            f = st.fork()
            self.rx(f, "ValueError", t, fr)
        return cur

    def seq_items(self, v, st):
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, K) and isinstance(v.v, (str, tuple)):
            return [K(c) for c in v.v]
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, LRec) and r.exact():
                return list(r.tail)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            self.unsup(e, fr, "expression " + type(e).__name__)
            return [(st, Top(type(e).__name__))]
        return m(e, st, fr)

    def evs(self, es, st, fr):
        cur = [(st, [])]
        for e in es:
            nx = []
            for x, vs in cur:
                k = self.pin(x, fr, vs, e)
                for y, v in self.ev(e, x, fr):
                    nx.append((y, (self.unpin(y, fr, k, vs) if k else vs) + [v]))
            cur = nx
        return cur

    def pin(self, st, fr, vs, e):
        """Keep temporary values reachable while e is evaluated; key or None."""
        if not vs or not has_call(e):
            return None
        vals = tuple(v[1] if isinstance(v, tuple) else v for v in vs)
        w = set()
        for v in vals:
            addrs_of(v, w)
        if not w:
            return None
        k = "%p" + e._id
        d = dict(st.frames.get(fr.fid, {}))
        d[k] = Tup(vals)
        st.frames[fr.fid] = d
        return k

    def unpin(self, st, fr, k, vs):
        d = st.frames.get(fr.fid)
        if d is None or k not in d:
            return vs
        d = dict(d)
        t = d.pop(k)
        st.frames[fr.fid] = d
        if not isinstance(t, Tup) or len(t.items) != len(vs):
            return vs
        return [(old[0], new) if isinstance(old, tuple) else new for old, new in zip(vs, t.items)]

    def ev_Constant(self, e, st, fr):
        return [(st, K(e.value))]

    def ev_JoinedStr(self, e, st, fr):
        cur = [(st, ())]
        for p in e.values:
            nx = []
            for x, at in cur:
                if isinstance(p, ast.Constant):
                    nx.append((x, at + strs.lit_atoms(p.value)))
                    continue
                for y, v in self.ev(p.value, x, fr):
                    if p.format_spec is not None:
                        for z, sp in self.ev(p.format_spec, y, fr):
                            if sp == K(""):
                                nx.append((z, at + self.to_str_atoms(v, z, p.conversion)))
                            else:
                                nx.append((z, at + (("v", Sy(("fmt", v, sp))),)))
                    else:
                        nx.append((y, at + self.to_str_atoms(v, y, p.conversion)))
            cur = nx
        return [(x, strs.mk(at)) for x, at in cur]

    def ev_FormattedValue(self, e, st, fr):
        return [(x, strs.mk(self.to_str_atoms(v, x, e.conversion))) for x, v in self.ev(e.value, st, fr)]

    def to_str_atoms(self, v, st, conv=-1):
        if conv in (-1, 115):
            if isinstance(v, K):
                return strs.lit_atoms(str(v.v))
            if is_str(v):
                return strs.atoms_of(v, st)
            if isinstance(v, Sy):
                f = st.fact(v.t)
                if f.const is not None:
                    return strs.lit_atoms(str(f.const.v))
                if f.types is not None and all(a[0] == "builtins.str" for a in f.types):
                    return (("v", v),)
            return (("v", Sy(("str", v))),)
        return (("v", Sy(("repr", v))),)

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for x, v in self.ev(e.value, st, fr):
            f = fr
            self.bind_walrus(e.target.id, v, x, fr)
            out.append((x, v))
        return out

    def bind_walrus(self, name, v, st, fr):
        fid = fr.fid
        node = fr.node
        parent = fr.parent
        while isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            fid = parent
            node, parent, _ = self.finfo[fid]
        st.frames.setdefault(fid, {})[name] = v

    def ev_Attribute(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            out.extend(self.getattr_(b, e.attr, x, e, fr))
        return out

    def ev_Subscript(self, e, st, fr):
        out = []
        for x, b in self.ev(e.value, st, fr):
            for y, i in self.ev_index(e.slice, x, fr):
                out.extend(self.getitem(b, i, y, e, fr))
        return out

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            out = []
            for x, vs in self.evs([z or ast.Constant(value=None) for z in (s.lower, s.upper, s.step)], st, fr):
                out.append((x, Part(Ext("builtins.slice"), tuple(vs), ())))
            return out
        return self.ev(s, st, fr)

    def ev_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.star_seq(e, st, fr, lambda x, its: Tup(tuple(its)), lambda x: Top("tuple*"))
        return [(x, Tup(tuple(vs))) for x, vs in self.evs(e.elts, st, fr)]

    def star_seq(self, e, st, fr, mk, unk):
        out = []
        for x, vs in self.evs([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st, fr):
            its = []
            ok = True
            for n, v in zip(e.elts, vs):
                if isinstance(n, ast.Starred):
                    s = self.seq_items(v, x)
                    if s is None:
                        ok = False
                        break
                    its.extend(s)
                else:
                    its.append(v)
            out.append((x, mk(x, its) if ok else unk(x)))
        return out

    def ev_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = []
            for x, vs in self.evs([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st, fr):
                o = self.alloc(x, fr, e, LRec())
                for n, v in zip(e.elts, vs):
                    if isinstance(n, ast.Starred):
                        self.list_extend(o, v, x, e, fr)
                    else:
                        self.list_append(o, v, x, e, fr, silent=True)
                out.append((x, o))
            return out
        out = []
        for x, vs in self.evs(e.elts, st, fr):
            o = self.alloc(x, fr, e, LRec(tail=tuple(vs)))
            for v in vs:
                self.emit("on_elem", x, o, v, e, fr)
            out.append((x, o))
        return out

    def ev_Set(self, e, st, fr):
        return [(x, self.alloc(x, fr, e, SRec(frozenset(vs)))) for x, vs in self.evs(e.elts, st, fr)]

    def ev_Dict(self, e, st, fr):
        out = []
        ks = [k for k in e.keys]
        for x, vs in self.evs([y for k, v in zip(ks, e.values) for y in ((k, v) if k is not None else (v,))], st, fr):
            d = DRec()
            i = 0
            for k in ks:
                if k is None:
                    d = self.dict_update(d, vs[i], x)
                    i += 1
                else:
                    d = self.dict_put(d, vs[i], vs[i + 1], x)
                    i += 2
            out.append((x, self.alloc(x, fr, e, d)))
        return out

    def ev_IfExp(self, e, st, fr):
        T, F = self.cond(e.test, st, fr)
        out = []
        for x in T:
            out.extend(self.ev(e.body, x, fr))
        for x in F:
            out.extend(self.ev(e.orelse, x, fr))
        return out

    def ev_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, v in enumerate(e.values):
            nx = []
            last = i == len(e.values) - 1
            for x in cur:
                for y, w in self.ev(v, x, fr):
                    if last:
                        out.append((y, w))
                        continue
                    for z, b in self.truth(w, y, v, fr):
                        if b == isand:
                            nx.append(z)
                        else:
                            w2 = w
                            if not b and isinstance(w, St):
                                w2 = K("")
                            elif b and isinstance(w, St):
                                w2 = self.nonempty_of(w, z) or w
                            elif isinstance(w, Sy) and z.fact(w.t).const is not None:
                                w2 = z.fact(w.t).const
                            out.append((z, w2))
            cur = nx
        return out

    def ev_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            T, F = self.cond(e.operand, st, fr)
            return [(x, FALSE) for x in T] + [(x, TRUE) for x in F]
        out = []
        for x, v in self.ev(e.operand, st, fr):
            if isinstance(v, K) and isinstance(v.v, (int, float)):
                if isinstance(e.op, ast.USub):
                    out.append((x, K(-v.v)))
                elif isinstance(e.op, ast.UAdd):
                    out.append((x, K(+v.v)))
                else:
                    out.append((x, K(~v.v) if isinstance(v.v, int) else Top("~")))
            elif isinstance(v, I) and isinstance(e.op, ast.USub):
                out.append((x, I_(v.e.neg())))
            elif isinstance(v, Sy):
                out.append((x, Sy(("u", type(e.op).__name__, v))))
            else:
                out.append((x, Top("unary")))
        return out

    def ev_BinOp(self, e, st, fr):
        out = []
        for x, (a, b) in self.evs([e.left, e.right], st, fr):
            out.extend(self.binop(e.op, a, b, x, e, fr))
        return out

    def ev_Compare(self, e, st, fr):
        out = []
        if len(e.ops) == 1:
            for x, a in self.ev(e.left, st, fr):
                for y, b in self.ev(e.comparators[0], x, fr):
                    out.extend(self.compare(e.ops[0], a, b, y, e, fr, e.left, e.comparators[0]))
            return out
        # chained
        for x, a in self.ev(e.left, st, fr):
            out.extend(self.chain(e, 0, a, x, fr))
        return out

    def chain(self, e, i, a, st, fr):
        out = []
        left = e.left if i == 0 else e.comparators[i - 1]
        for y, b in self.ev(e.comparators[i], st, fr):
            for z, r in self.compare(e.ops[i], a, b, y, e, fr, left, e.comparators[i]):
                if i == len(e.ops) - 1:
                    out.append((z, r))
                else:
                    for w, t in self.truth(r, z):
                        if t:
                            out.extend(self.chain(e, i + 1, b, w, fr))
                        else:
                            out.append((w, FALSE))
        return out

    def ev_Lambda(self, e, st, fr):
        f = Fn(e, fr.mod, fr.fid if fr.fid[0] not in ("m", "c") else None, None)
        self.finfo.setdefault(fr.fid, (fr.node, fr.parent, fr.mod))
        ds = list(e.args.defaults)
        for x, vs in self.evs(ds, st, fr):
            self.fn_defaults[f] = (vs, {})
            return [(x, f)]
        return [(st, f)]

    def ev_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # comprehensions: nested loops appending to a fresh collection
    def ev_ListComp(self, e, st, fr):
        return self.comp(e, st, fr, LRec())

    def ev_GeneratorExp(self, e, st, fr):
        if self.exact:
            return self.lazy_genexp(e, st, fr)
        return self.comp(e, st, fr, LRec())

    def ev_SetComp(self, e, st, fr):
        return self.comp(e, st, fr, SRec())

    def ev_DictComp(self, e, st, fr):
        return self.comp(e, st, fr, DRec())

    def comp(self, e, st, fr, rec):
        fid = fr.fid + ("%" + e._id,)
        cfr = Frame(fid, e, fr.mod, fr.cls, fr.path, fr.fid, fn=fr.fn, ctx=fr.ctx)
        cfr.yielder = fr.yielder
        self.finfo[fr.fid] = (fr.node, fr.parent, fr.mod)
        self.finfo[fid] = (e, fr.fid, fr.mod)
        o = self.alloc(st, fr, e, rec)
        st.frames[fid] = {"%acc": o}

        def level(i, x):
            if i == len(e.generators):
                res = []
                if isinstance(e, ast.DictComp):
                    for y, (k, v) in self.evs([e.key, e.value], x, cfr):
                        acc = y.frames[fid]["%acc"]
                        y.heap[acc.a] = self.dict_put(y.heap[acc.a], k, v, y, comp=True)
                        self.emit("on_dictput", y, acc, k, v, e, cfr)
                        res.append((NEXT, y, None))
                else:
                    for y, v in self.ev(e.elt, x, cfr):
                        acc = y.frames[fid]["%acc"]
                        if isinstance(e, ast.SetComp):
                            self.set_add(acc, v, y)
                        else:
                            self.list_append(acc, v, y, e, cfr, comp=True)
                        res.append((NEXT, y, None))
                return res
            g = e.generators[i]
            res = []
            for y, it in self.ev(g.iter, x, fr if i == 0 else cfr):
                def body(z, el):
                    r = []
                    for w in self.assign(g.target, el, z, cfr):
                        ok = [w]
                        for c in g.ifs:
                            nx = []
                            for q in ok:
                                T, F = self.cond(c, q, cfr)
                                nx.extend(T)
                                r.extend((NEXT, f, None) for f in F)
                            ok = nx
                        for q in ok:
                            r.extend(level(i + 1, q))
                    return r
                res.extend(self.iterate(it, y, cfr, g_node(e, i), body))
            return res

        self.excs.append([])
        outs = level(0, st)
        for x, v in self.excs.pop():
            outs.append((EXC, x, v))
        res = []
        for o2 in outs:
            if o2[0] == EXC:
                o2[1].frames.pop(fid, None)
                self.excs[-1].append((o2[1], o2[2]))
            elif o2[0] in (NEXT, BRK):
                acc = o2[1].frames[fid]["%acc"]
                if not self.closure_live(o2[1], fid):
                    o2[1].frames.pop(fid, None)
                res.append((o2[1], acc))
            else:
                o2[1].frames.pop(fid, None)
        return res

    def closure_live(self, st, fid):
        d = st.frames.get(fid)
        if d is None:
            return False
        sub = st.frames.pop(fid)
        live = st.reachable()
        st.frames[fid] = sub
        return ("frame", fid) in live

    def ev_Yield(self, e, st, fr):
        out = []
        vals = self.ev(e.value, st, fr) if e.value is not None else [(st, NONE_)]
        for x, v in vals:
            out.extend(self.do_yield(x, v, fr, e))
        return out

    def do_yield(self, st, v, fr, node):
        y = fr.yielder
        if y is None:
            self.emit("on_yield", st, v, node, fr)
            return [(st, NONE_)]
        out = []
        for o in y(st, v):
            if o[0] in (NEXT, CNT):
                out.append((o[1], NONE_))
            elif o[0] == "throw":
                self.raise_(o[1], o[2], node, fr)
            else:
                self.excs[-1].append((o[1], GX(o[0], o[2])))
        return out

    def ev_YieldFrom(self, e, st, fr):
        out = []
        for x, it in self.ev(e.value, st, fr):
            def body(y, el):
                r = []
                self.excs.append([])
                res = self.do_yield(y, el, fr, e)
                for z, v in self.excs.pop():
                    r.append((EXC, z, v))
                r.extend((NEXT, z, None) for z, _ in res)
                return r
            for o in self.iterate(it, x, fr, e, body):
                if o[0] in (NEXT, BRK):
                    out.append((o[1], NONE_))
                elif o[0] == EXC:
                    self.excs[-1].append((o[1], o[2]))
        return out

    # ------------------------------------------------------------ calls
    def ev_Call(self, e, st, fr):
        # super() and a few syntax-directed builtins
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.find_frame("super", st, fr) is None:
            return self.ev_super(e, st, fr)
        out = []
        for x, f in self.ev(e.func, st, fr):
            k = self.pin(x, fr, [f], e) if any(has_call(a) for a in e.args) or any(
                has_call(a.value) for a in e.keywords) else None
            for y, args, kw in self.ev_args(e, x, fr):
                g = self.unpin(y, fr, k, [f])[0] if k else f
                out.extend(self.call(g, args, kw, y, e, fr))
        return out

    def ev_args(self, e, st, fr):
        """[(st, [values or ('*', v)], [(name or '**', v)])]"""
        cur = [(st, [], [])]
        for a in e.args:
            nx = []
            for x, vs0, kw in cur:
                k = self.pin(x, fr, vs0, a)
                for y, v in self.ev(a.value if isinstance(a, ast.Starred) else a, x, fr):
                    vs = self.unpin(y, fr, k, vs0) if k else vs0
                    if isinstance(a, ast.Starred):
                        s = self.seq_items(v, y)
                        nx.append((y, vs + (s if s is not None else [("*", v)]), kw))
                    else:
                        nx.append((y, vs + [v], kw))
            cur = nx
        for k in e.keywords:
            nx = []
            for x, vs0, kw0 in cur:
                pk = self.pin(x, fr, vs0 + kw0, k.value)
                for y, v in self.ev(k.value, x, fr):
                    both = self.unpin(y, fr, pk, vs0 + kw0) if pk else vs0 + kw0
                    vs, kw = both[:len(vs0)], both[len(vs0):]
                    if k.arg is None:
                        ex = self.dict_exact(v, y)
                        if ex is not None:
                            nx.append((y, vs, kw + ex))
                        else:
                            nx.append((y, vs, kw + [("**", v)]))
                    else:
                        nx.append((y, vs, kw + [(k.arg, v)]))
            cur = nx
        return cur

    def dict_exact(self, v, st):
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, DRec) and r.rest is None and r.org is None and all(
                    isinstance(k, K) and isinstance(k.v, str) for k, _ in r.items):
                return [(k.v, x) for k, x in r.items]
        return None

    def ev_super(self, e, st, fr):
        # find self and the defining class
        f = fr
        node = fr.node
        fid = fr.fid
        while isinstance(node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda)):
            fid = self.finfo[fid][1]
            node = self.finfo[fid][0]
        if e.args and len(e.args) >= 2:
            out = []
            for x, vs in self.evs(e.args[:2], st, fr):
                out.append((x, Sup(vs[0].ci if isinstance(vs[0], Cl) else None, vs[1])))
            return out
        ps = scopes.params(node)
        cls = fr.cls
        d = st.frames.get(fid, {})
        sv = d.get("%self", d.get(ps[0] if ps else "self"))
        if cls is None or sv is None:
            return [(st, Top("super"))]
        return [(st, Sup(cls, sv))]

    def call(self, f, args, kw, st, node, fr):
        self.stats["calls"] += 1
        t = type(f)
        if t is Fn:
            return self.call_fn(f, args, kw, st, node, fr)
        if t is Bm:
            if self.boundary is not None:
                r = self.boundary(self, f, args, kw, st, node, fr)
                if r is not None:
                    return r
            return self.call(f.f, [f.self_] + args, kw, st, node, fr)
        if t is Cl:
            return self.instantiate(f, args, kw, st, node, fr)
        if t is Ext:
            return self.call_ext(f.q, args, kw, st, node, fr)
        if t is BM:
            return self.call_bm(f, args, kw, st, node, fr)
        if t is Part:
            return self.call(f.f, list(f.args) + args, list(f.kw) + kw, st, node, fr)
        if t in (SM, CM):
            return self.call(f.f, args, kw, st, node, fr)
        if t is CMF:
            return self.call_fn(f.f, args, kw, st, node, fr, cm=True)
        if t is Nat:
            return getattr(self, "nat_" + f.name)(args, kw, st, node, fr)
        if t is Obj:
            r = self.rec(st, f.a)
            if isinstance(r, Inst) and r.ci is not None and r.ci.lookup("__call__")[1] is not None:
                return self.callmethod(f, "__call__", args, st, node, fr, kw)
            if isinstance(r, Inst) and r.ci is not None:
                self.rx(st, "TypeError", node, fr, K("%s object is not callable" % r.ci.name))
                return []
        if t is K:
            self.rx(st, "TypeError", node, fr, K("'%s' object is not callable" % type(f.v).__name__))
            return []
        if t is Sy:
            return self.call_sym(f, args, kw, st, node, fr)
        return self.opaque_call(("?",), args, kw, st, node, fr)

    def call_sym(self, f, args, kw, st, node, fr):
        if self.opaque_hook is not None:
            r = self.opaque_hook(self, f, args, kw, st, node, fr)
            if r is not None:
                return r
        fc = st.fact(f.t)
        if fc.const is not None:
            return self.call(fc.const, args, kw, st, node, fr)
        if fc.types is not None:
            good, bad = [], []
            for a in fc.types:
                (good if self.type_callable(a[0]) else bad).append(a)
            if bad:
                y = st.fork() if good else st
                y.facts[f.t] = fc.with_(types=frozenset(bad))
                self.rx(y, "TypeError", node, fr, K("object is not callable"))
                if not good:
                    return []
                st.facts[f.t] = fc.with_(types=frozenset(good))
        return self.opaque_call(("sy", f.t), args, kw, st, node, fr)

    def type_callable(self, name):
        ci = self.classes.get(name)
        if ci is not None:
            return ci.lookup("__call__")[1] is not None or "?unknown" in ci.ext_bases()
        return name not in ("builtins.NoneType", "builtins.str", "builtins.int", "builtins.float", "builtins.list",
                            "builtins.dict", "builtins.bool", "builtins.tuple")

    def opaque_call(self, what, args, kw, st, node, fr, types=None):
        """A call of something outside the analysed code."""
        self.emit("on_opaque", st, what, args, kw, node, fr)
        t = ("c", what, node._id, fr.path)
        if self.exact:
            n = st.ghost["%opq"] = st.ghost.get("%opq", 0) + 1
            t += (n,)
        st.facts.pop(t, None)
        st.drop_facts(lambda x: contains_term(x, t))
        if types is not None:
            st.facts[t] = Fact(types)
        return [(st, Sy(t))]

    def callmethod(self, obj, name, args, st, node, fr, kw=()):
        out = []
        for x, f in self.getattr_(obj, name, st, node, fr):
            out.extend(self.call(f, list(args), list(kw), x, node, fr))
        return out

    def bind_args(self, f, args, kw, st, node, fr):
        """dict of parameter values, or None (after raising TypeError)."""
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        rest = []
        kw = list(kw)
        unknown_star = [x[1] for x in args if isinstance(x, tuple)]
        args = [x for x in args if not isinstance(x, tuple)]
        unknown_kw = [v for k, v in kw if k == "**"]
        kw = [(k, v) for k, v in kw if k != "**"]
        for i, v in enumerate(args):
            if i < len(pos):
                d[pos[i]] = v
            else:
                rest.append(v)
        if rest and not a.vararg:
            self.rx(st, "TypeError", node, fr, K("too many arguments for %s" % getattr(f.node, "name", "lambda")))
            return None
        if a.vararg:
            if unknown_star:
                d[a.vararg.arg] = unknown_star[0] if not rest and len(unknown_star) == 1 else Top("*args")
            else:
                d[a.vararg.arg] = Tup(tuple(rest))
        names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        extra = []
        for k, v in kw:
            if k in names:
                if k in d:
                    self.rx(st, "TypeError", node, fr, K("multiple values for " + k))
                    return None
                d[k] = v
            else:
                extra.append((k, v))
        if extra and not a.kwarg:
            self.rx(st, "TypeError", node, fr, K("unexpected keyword argument " + extra[0][0]))
            return None
        if a.kwarg:
            rec = DRec(tuple((K(k), v) for k, v in extra))
            if unknown_kw:
                u = unknown_kw[0]
                ur = self.rec(st, u.a) if isinstance(u, Obj) else None
                if not extra:
                    d[a.kwarg.arg] = ("copy", u)
                else:
                    rec = DRec(rec.items, frozenset(), ("kw", u), frozenset())
                    d[a.kwarg.arg] = rec
            else:
                d[a.kwarg.arg] = rec
        defs, kwd = self.fn_defaults.get(f, ((), {}))
        for n, v in zip(pos[len(pos) - len(defs):], defs):
            d.setdefault(n, v)
        for n, v in kwd.items():
            d.setdefault(n, v)
        for n in pos + [x.arg for x in a.kwonlyargs]:
            if n not in d:
                if unknown_star or unknown_kw:
                    d[n] = Sy(("kwarg", n, unknown_kw[0] if unknown_kw else unknown_star[0]))
                else:
                    self.rx(st, "TypeError", node, fr, K("missing argument %s of %s" % (
                        n, getattr(f.node, "name", "lambda"))))
                    return None
        return d

    def call_fn(self, f, args, kw, st, node, fr, cm=False):
        name = getattr(f.node, "name", "<lambda>")
        self.stats["functions"].add(f.mod.name + ":" + getattr(f.node, "_qual", name))
        if len(fr.path) > MAXDEPTH:
            self.unsup(node, fr, "call depth")
            return [(st, Top("depth"))]
        d = self.bind_args(f, args, kw, st, node, fr)
        if d is None:
            return []
        path = fr.path + (node._id,)
        fid = ("f",) + path + (name,)
        while fid in st.frames:
            fid = fid + ("'",)
        if isinstance(f.node, ast.FunctionDef) and (scopes.is_generator(f.node) or cm):
            g = CMgr if cm else Gen
            fid = ("g",) + fid[1:]
            while self.exact and (fid in st.frames or ("gen", fid) in st.ghost):
                fid = fid + ("'",)
            self.enter_frame(f, d, st, fid, path, node, fr)
            gv = g(f, fid)
            self.gens[fid] = path
            self.emit("on_generator", st, gv, node, fr)
            return [(st, gv)]
        if name in self.tab_names and isinstance(f.node, ast.FunctionDef) and not self.evaluating_static:
            return self.call_tab(f, d, st, node, fr)
        if any(x is f.node for x in self.callstack):
            if sum(x is f.node for x in self.callstack) > (24 if self.exact else 2):
                self.unsup(node, fr, "recursion of " + name)
                self.emit("on_recursion", st, f, node, fr)
                return [(st, Sy(("rec", name, node._id)))]
        nfr = self.enter_frame(f, d, st, fid, path, node, fr)
        self.emit("on_call", st, f, nfr, node, fr)
        self.callstack.append(f.node)
        outs = self.run_body(f, st, nfr)
        self.callstack.pop()
        return self.leave(f, outs, nfr, node, fr)

    def enter_frame(self, f, d, st, fid, path, node, fr):
        nfr = Frame(fid, f.node, f.mod, f.cls if f.cls is not None else (
            self.fn_class(f)), path, f.fid, fn=f, ctx=fr.ctx)
        self.finfo[fid] = (f.node, f.fid, f.mod)
        vals = {}
        for n, v in d.items():
            if isinstance(v, DRec):
                v = self.alloc(st, nfr, f.node, v, "**")
            elif isinstance(v, tuple) and v[0] == "copy":
                u = v[1]
                r = self.rec(st, u.a) if isinstance(u, Obj) else None
                if isinstance(r, DRec):
                    v = self.alloc(st, nfr, f.node, r, "**")
                elif isinstance(u, Sy):
                    v = self.alloc(st, nfr, f.node, DRec((), frozenset(), u, frozenset()), "**")
                else:
                    v = u
            vals[n] = v
        ps = scopes.params(f.node)
        if ps and f.cls is not None and f.node.args.args:
            vals["%self"] = vals.get(f.node.args.args[0].arg, NONE_)
        st.frames[fid] = vals
        return nfr

    def fn_class(self, f):
        """Class of the method enclosing a nested function."""
        return None

    def run_body(self, f, st, nfr):
        if isinstance(f.node, ast.Lambda):
            self.excs.append([])
            r = self.ev(f.node.body, st, nfr)
            outs = [(RET, x, v) for x, v in r]
            outs.extend((EXC, x, v) for x, v in self.excs.pop())
            return outs
        st.trail = (st.trail + ((self.where(f.node, nfr), "enter " + f.node.name),))[-40:]
        outs = self.block(f.node.body, [st], nfr)
        return [(RET, o[1], NONE_) if o[0] == NEXT else o for o in outs]

    def leave(self, f, outs, nfr, node, fr):
        res = []
        rets = []
        for o in outs:
            if o[0] == RET:
                self.emit("on_return", o[1], f, o[2], nfr, node, fr)
                rets.append((o[1], o[2]))
            elif o[0] == EXC:
                self.emit("on_escape", o[1], f, o[2], nfr, node, fr)
                self.drop_frame(o[1], nfr.fid, o[2])
                self.excs[-1].append((o[1], o[2]))
        groups = {}
        order = []
        for x, v in rets:
            self.drop_frame(x, nfr.fid, v)
            if v not in groups:
                groups[v] = []
                order.append(v)
            groups[v].append(x)
        for v in order:
            g = groups[v]
            if len(g) > 1:
                for s in g:
                    s.hidden = (v,)
                g = self.compact(g)
                for s in g:
                    s.hidden = ()
            res.extend((x, v) for x in g)
        return res

    def drop_frame(self, st, fid, v):
        if fid in st.frames:
            extra = (v,) if isinstance(v, V) else ()
            d = st.frames.pop(fid)
            st.hidden = extra
            # a returned/stored closure keeps its frame
            need = False
            if any(type(x) in (Fn, Bm, Gen, Part) for x in extra) or self.has_closures(st):
                live = st.reachable()
                need = ("frame", fid) in live
            st.hidden = ()
            if need:
                st.frames[fid] = d

    def has_closures(self, st):
        for d in st.frames.values():
            for v in d.values():
                if type(v) in (Fn, Bm, Part, Gen, CMgr) and not (type(v) is Fn and v.fid is None):
                    return True
        for r in st.heap.values():
            for v in rec_values(r):
                if type(v) in (Fn, Bm, Part, Gen, CMgr):
                    return True
        return False

    # generators -------------------------------------------------
    def run_generator(self, g, st, fr, node, body, cm=False):
        """Run a generator, executing body(st, value) at each yield. For context managers
        exceptions of the body are thrown into the generator at the yield."""
        f = g.f
        if g.fid not in st.frames:
            self.unsup(node, fr, "generator frame")
            return [(NEXT, st, None)]
        path = self.gens[g.fid]
        nfr = Frame(g.fid, f.node, f.mod, f.cls, path, f.fid, fn=f, ctx=fr.ctx)
        if cm:
            def yielder(x, v):
                res = []
                for o in body(x, v):
                    if o[0] == NEXT:
                        res.append(o)
                    elif o[0] == EXC:
                        res.append(("throw", o[1], o[2]))
                    else:
                        # leaving the with body by return/break: generator resumes normally
                        x2 = o[1]
                        res.append((NEXT, x2, None))
                        x2.ghost[("cmexit", g.fid)] = (o[0], o[2] if o[2] is not None else NONE_)
                return res
        else:
            yielder = body
        nfr.yielder = yielder
        self.callstack.append(f.node)
        outs = self.block(f.node.body, [st], nfr)
        self.callstack.pop()
        res = []
        for o in outs:
            x = o[1]
            kind, val = o[0], o[2]
            if kind == EXC and isinstance(val, GX):
                kind, val = val.kind, val.val
                if kind == EXC and isinstance(val, GX):
                    pass
            elif kind == RET:
                kind, val = NEXT, None
            x.frames.pop(g.fid, None)
            if cm and kind == NEXT:
                ce = x.ghost.pop(("cmexit", g.fid), None)
                if ce is not None:
                    kind, val = ce[0], (None if ce[0] in (BRK, CNT) else ce[1])
            res.append((kind, x, val))
        return res

    # instantiation ---------------------------------------------
    def instantiate(self, c, args, kw, st, node, fr):
        ci = c.ci
        owner, new = ci.lookup("__new__")
        if new is not None:
            f = new.f if isinstance(new, (SM, CM)) else new
            out = []
            for x, o in self.call(f, [c] + args, kw, st, node, fr):
                out.append((x, o))
            return out
        return self.construct(ci, args, kw, st, node, fr)

    def pinned(self, st, fr, node, o):
        d = dict(st.frames.get(fr.fid, {}))
        d["%n" + node._id] = o
        st.frames[fr.fid] = d

    def unpinned(self, st, fr, node, o):
        d = dict(st.frames.get(fr.fid, {}))
        w = d.pop("%n" + node._id, o)
        st.frames[fr.fid] = d
        return w

    def construct(self, ci, args, kw, st, node, fr):
        o = self.alloc(st, fr, node, Inst(ci, {}), ci.name)
        self.emit("on_alloc", st, o, ci, node, fr, args, kw)
        owner, init = ci.lookup("__init__")
        out = []
        if init is not None:
            self.pinned(st, fr, node, o)
            n = len(self.excs[-1])
            res = self.call(init, [o] + args, kw, st, node, fr)
            for x, _ in self.excs[-1][n:]:
                self.unpinned(x, fr, node, o)
            for x, _ in res:
                o = self.unpinned(x, fr, node, o)
                self.emit("on_construct", x, o, ci, node, fr, args, kw)
                out.append((x, o))
            return out
        if any(isinstance(b, ClassInfo) and b.attrs for b in ci.mro()):
            for x in self.attrs_init(o, ci, args, kw, st, node, fr):
                self.emit("on_construct", x, o, ci, node, fr, args, kw)
                out.append((x, o))
            return out
        eb = ci.ext_bases()
        if any(ext_issub(b, "builtins.BaseException") for b in eb):
            st.heap[o.a] = Inst(ci, {"args": Tup(tuple(a for a in args if not isinstance(a, tuple)))})
            self.emit("on_construct", st, o, ci, node, fr, args, kw)
            return [(st, o)]
        natives = [b for b in eb if b not in ("builtins.object", "?unknown", "typing.Generic", "abc.ABC")]
        if natives:
            self.native_init(st, o, ci, natives, args, kw, node, fr)
        elif args or kw:
            if "?unknown" not in eb:
                self.rx(st, "TypeError", node, fr, K("%s() takes no arguments" % ci.name))
                return []
        self.emit("on_construct", st, o, ci, node, fr, args, kw)
        return [(st, o)]

    def native_init(self, st, o, ci, natives, args, kw, node, fr):
        r = st.heap[o.a]
        v = args[0] if args and not isinstance(args[0], tuple) else None
        nt = Sy(("nat", natives[0], tuple(a for a in args if isinstance(a, V)),
                 tuple((k, a) for k, a in kw if isinstance(a, V))))
        st.heap[o.a] = Inst(ci, dict(r.f), r.many, nt)
        self.emit("on_native", st, o, ci, natives, args, kw, node, fr)

    def attr_fields(self, ci):
        """[(name, Part or None default expr value, owner)] of an attrs/dataclass class."""
        out = []
        seen = set()
        for c in reversed([c for c in ci.mro() if isinstance(c, ClassInfo)]):
            for s in c.node.body:
                n = None
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    n = s.target.id
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = c.ns.get(s.targets[0].id)
                    if isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q in ATTR_IB:
                        n = s.targets[0].id
                if n is None or n in seen:
                    continue
                v = c.ns.get(n)
                ann = s.annotation if isinstance(s, ast.AnnAssign) else None
                if ann is not None and "ClassVar" in ast.dump(ann):
                    continue
                seen.add(n)
                out.append((n, v, c, ann))
        return out

    def attrs_init(self, o, ci, args, kw, st, node, fr):
        fields = self.attr_fields(ci)
        vals = {}
        params = []
        for n, v, c, ann in fields:
            opts = dict(v.kw) if isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q in ATTR_IB else (
                {"default": v} if v is not None else {})
            init = opts.get("init", TRUE)
            if init != FALSE:
                params.append(n)
        for i, a in enumerate(args):
            if isinstance(a, tuple) or i >= len(params):
                self.rx(st, "TypeError", node, fr, K("arguments of %s" % ci.name))
                return []
            vals[params[i]] = a
        for k, v in kw:
            if k == "**":
                bad = st.fork()
                self.rx(bad, "TypeError", node, fr, K("unknown option"))
                for n in params:
                    vals.setdefault(n, None)
                star = v
                for n in params:
                    if vals[n] is None:
                        vals[n] = Sy(("kwopt", n, v))
                continue
            if k.lstrip("_") not in [p.lstrip("_") for p in params]:
                self.rx(st, "TypeError", node, fr, K("unexpected keyword argument " + k))
                return []
            vals[[p for p in params if p.lstrip("_") == k.lstrip("_")][0]] = v
        cur = [(st, {})]
        for n, v, c, ann in fields:
            nx = []
            opts = dict(v.kw) if isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q in ATTR_IB else (
                {"default": v} if v is not None else {})
            pos = list(v.args) if isinstance(v, Part) else []
            for x, d in cur:
                if n in vals:
                    nx.append((x, dict(d, **{n: vals[n]})))
                elif "factory" in opts:
                    for y, w in self.call(opts["factory"], [], [], x, at(node, n), fr):
                        nx.append((y, dict(d, **{n: w})))
                elif "default" in opts:
                    nx.append((x, dict(d, **{n: opts["default"]})))
                elif pos:
                    nx.append((x, dict(d, **{n: pos[0]})))
                else:
                    self.rx(x, "TypeError", node, fr, K("missing argument " + n))
            cur = nx
        out = []
        for x, d in cur:
            x.heap[o.a] = Inst(ci, d)
            ys = [x]
            for n, v, c, ann in fields:
                vd = dict(v.kw).get("validator") if isinstance(v, Part) else None
                if vd is not None and n in d:
                    ys = [z for y in ys for z in self.validate(vd, o, n, d[n], y, node, fr)]
            out.extend(ys)
        return out

    def validate(self, vd, o, n, v, st, node, fr):
        """States in which the attrs validator accepts the value."""
        q = vd.f.q if isinstance(vd, Part) and isinstance(vd.f, Ext) else None
        if q == "attr.validators.in_" and vd.args:
            out = []
            for y, t in self.cmp_in(True, v, vd.args[0], st, node, fr, None):
                for z, b in self.truth(t, y):
                    if b:
                        out.append(z)
                    else:
                        self.rx(z, "ValueError", node, fr, K("validator of " + n))
            return out
        if q == "attr.validators.optional" and vd.args:
            out = []
            for y, t in self.cmp_is(True, v, NONE_, st, node, fr):
                for z, b in self.truth(t, y):
                    out += [z] if b else self.validate(vd.args[0], o, n, v, z, node, fr)
            return out
        if q == "attr.validators.instance_of" and vd.args:
            out = []
            for y, t in self.b_isinstance([v, vd.args[0]], [], st, node, fr):
                for z, b in self.truth(t, y):
                    if b:
                        out.append(z)
                    else:
                        self.rx(z, "TypeError", node, fr, K("validator of " + n))
            return out
        many = vd.args if q == "attr.validators.and_" else vd.items if isinstance(vd, Tup) else None
        if many is None and isinstance(vd, Obj) and isinstance(self.rec(st, vd.a), LRec) and self.rec(st, vd.a).exact():
            many = self.rec(st, vd.a).tail
        if many is not None:
            ys = [st]
            for w in many:
                ys = [z for y in ys for z in self.validate(w, o, n, v, y, node, fr)]
            return ys
        if isinstance(vd, (Fn, SM, Bm)):
            at_ = Sy(("attribute", n))
            return [y for y, _ in self.call(vd, [o, at_, v], [], st, at(node, "validate" + n), fr)]
        bad = st.fork()
        self.rx(bad, "ValueError", node, fr, K("validator of " + n))
        return [st]

    # tabulated functions ----------------------------------------
    def call_tab(self, f, d, st, node, fr):
        fid = ("T", f.node._qual, f.fid)
        # callee's view
        E = State()
        E.frames[fid] = {}
        nfr = Frame(fid, f.node, f.mod, f.cls, (("T", f.node._qual),), f.fid, fn=f)
        self.finfo[fid] = (f.node, f.fid, f.mod)
        st.frames.setdefault(fr.fid, {})
        tmp = self.enter_frame(f, d, st, fid, nfr.path, node, fr)
        params = st.frames.pop(fid)
        self.emit("on_call", st, f, nfr, node, fr)
        E.frames[fid] = params
        # arguments stay reachable for the caller
        E.frames[("pin", fid)] = {n: v for n, v in params.items() if isinstance(v, Obj)}
        E.heap = {}
        live = st.reachable(list(params.values()))
        for a in live:
            if a in st.heap:
                E.heap[a] = st.heap[a]
            elif isinstance(a, tuple) and a and a[0] == "frame" and a[1] in st.frames:
                E.frames[a[1]] = dict(st.frames[a[1]])
        E.cons = st.cons
        E.chars = dict(st.chars)
        E.ranges = {}
        E.approx = st.approx
        terms = set()
        E.facts = dict(st.facts)
        E.ghost = {k: v for k, v in st.ghost.items() if isinstance(k, tuple) and k and k[0] == "down"}
        gen = self.generalise(E)
        key = (fid, shape(gen, set()))
        ctx = self.table.get(key)
        if ctx is None:
            ctx = self.table[key] = Ctx(key, f, gen, fid)
            ctx.syms = set(s for e in gen.all_lins() for s in e.syms())
            ctx.fr = nfr
            nfr.ctx = ctx
            self.table_changed = True
        else:
            R, changed, new, j = join(ctx.entry, gen, ctx.syms)
            if changed:
                ctx.entry = R
                ctx.syms |= new
                if new:
                    # the old exits speak of the old entry symbols
                    ctx.exits = {}
                    ctx.version += 1
                ctx.stale = True
                self.table_changed = True
        self.emit("on_tabcall", st, ctx, fr, node)
        cur = self.ctxstack[-1] if self.ctxstack else None
        ctx.callers.add(cur)
        ctx.depth = max(ctx.depth, len(self.ctxstack))
        if not ctx.active and (ctx.runs == 0 or self.final and ctx.done_pass != self.passno):
            self.analyse_ctx(ctx)
        return self.apply_exits(ctx, params, st, node, fr, fid)

    def generalise(self, E):
        """Replace the integers of the entry state by symbols of its own."""
        slots = []
        for dd in E.frames.values():
            for v in dd.values():
                if isinstance(v, I):
                    slots.append(v.e)
        for r in E.heap.values():
            if isinstance(r, Inst):
                for v in r.f.values():
                    if isinstance(v, I):
                        slots.append(v.e)
        mp = {}
        for e in slots:
            if e in mp:
                continue
            for k in list(mp):
                dlt = e - k
                if not dlt.t:
                    mp[e] = mp[k] + dlt.c
                    break
            else:
                mp[e] = symlin(fresh("e"))
        N = State()
        other = {}

        def fl(e):
            if not e.t or all(s.startswith("len:") for s in e.syms()):
                return e
            if e in mp:
                return mp[e]
            for k in mp:
                dlt = e - k
                if not dlt.t:
                    return mp[k] + dlt.c
            if e not in other:
                other[e] = symlin(fresh("e"))
            return other[e]
        fv = lambda v: map_v(v, fl)  # noqa: E731
        N.frames = {f: {n: fv(v) for n, v in dd.items()} for f, dd in E.frames.items()}
        N.heap = {a: map_rec(r, fv) for a, r in E.heap.items()}
        N.facts = E.facts
        N.approx = E.approx
        N.ghost = {k: map_ghost(g, fl, None) for k, g in E.ghost.items()}
        allm = dict(mp)
        allm.update(other)
        for (src, p), c in E.chars.items():
            for k, m in allm.items():
                dlt = p - k
                if not dlt.t and 0 <= dlt.c <= 2:
                    N.chars[(src, m + dlt.c)] = E.char(src, p)
                    break
        refs = [(lin(0), lin(0))] + [(len_sym(s), len_sym(s)) for s in srcs(E)] + [(k, m) for k, m in allm.items()]
        c = Cons()
        for k, m in allm.items():
            for k2, m2 in refs:
                if k2 == k:
                    continue
                for sg in (1, -1):
                    x = (k - k2).scale(sg)
                    if not x.t:
                        continue
                    b = E.lower(x, 0, 1)
                    if b is not None:
                        n = c.add((m - m2).scale(sg) - b)
                        c = n if n is not None else c
        if len(mp) <= 5:
            ks = [k for k in mp if k.t]
            for i, k in enumerate(ks):
                for k2 in ks[:i]:
                    for s in srcs(E):
                        x = len_sym(s) - k - k2
                        if not E.entails(x):
                            continue
                        n = c.add(len_sym(s) - mp[k] - mp[k2])
                        c = n if n is not None else c
        N.cons = c
        return N

    def analyse_ctx(self, ctx):
        ctx.active = True
        ctx.stale = False
        ctx.runs += 1
        ctx.done_pass = self.passno
        if ctx.runs > 60:
            self.unsupported[("fixpoint", "context does not stabilise: " + ctx.fn.node.name)] = 1
            ctx.active = False
            return
        saved_stack, self.callstack = self.callstack, []
        self.ctxstack.append(ctx)
        st = ctx.entry.fork()
        version = ctx.version
        self.excs.append([])
        nfr = ctx.fr
        for ob in self.ghosters:
            g = ob.loop_ghost(self, ctx.fn.node, nfr, st)
            if g:
                st.ghost[("prog", "ctx")] = g
        outs = self.run_body(ctx.fn, st, nfr)
        outs.extend((EXC, x, v) for x, v in self.excs.pop())
        self.callstack = saved_stack
        self.ctxstack.pop()
        changed = False
        for o in outs:
            self.emit("on_return" if o[0] == RET else "on_escape", o[1], ctx.fn, o[2], nfr, ctx.fn.node, nfr)
            if ctx.version == version and self.add_exit(ctx, o[0], o[1], o[2]):
                changed = True
        if changed:
            for c in ctx.callers:
                if c is not None:
                    c.stale = True
        ctx.active = False

    def add_exit(self, ctx, kind_, st, val):
        arg_addrs = set(ctx.entry.heap)
        vals = {"%ret": val if isinstance(val, V) else NONE_}
        st.frames = {ctx.fid: vals}
        for f in ctx.entry.frames:
            if f != ctx.fid:
                st.frames[f] = ctx.entry.frames[f]
        keep = dict((a, r) for a, r in st.heap.items())
        # canonical names and pruning
        order = {}

        def visit(v, depth, viaspan=False):
            t = type(v)
            if t is Obj:
                a = v.a
                if a in arg_addrs or a not in st.heap:
                    return v
                if a in order:
                    return Obj(order[a])
                r = st.heap[a]
                if not viaspan and depth >= 1 and isinstance(r, Inst) and not leaf(r) or depth > 2:
                    return Sy(("pruned",))
                na = ("ret", len(order))
                order[a] = na
                if isinstance(r, Inst):
                    nf = {}
                    for n, x in r.f.items():
                        if n.startswith("%"):
                            continue
                        if is_str(x) and kind_ == EXC:
                            nf[n] = Sy(("excstr", r.ci.name if r.ci else "?", n))
                            st.facts[nf[n].t] = Fact(frozenset([("builtins.str", ())]))
                        elif isinstance(x, Tup) and kind_ == EXC:
                            nf[n] = Sy(("exctup", r.ci.name if r.ci else "?", n))
                            st.facts[nf[n].t] = Fact(frozenset([("builtins.tuple", ())]))
                        elif isinstance(x, (Ch, St)):
                            nf[n] = strs.mk(strs.debrick(strs.atoms_of(x, st), st))
                        else:
                            nf[n] = visit(x, depth + 1, n == "span")
                    newheap[na] = Inst(r.ci, nf, False, visit(r.nt, depth) if r.nt is not None else None)
                else:
                    newheap[na] = map_rec_v(r, lambda x: visit(x, depth + 1))
                return Obj(na)
            if t is Tup:
                return Tup(tuple(visit(x, depth) for x in v.items))
            if t is Bm:
                return Bm(visit(v.self_, depth), v.f)
            return v

        def leaf(r):
            return all(n == "span" or n.startswith("%") or is_str(x) or isinstance(x, K) for n, x in r.f.items())
        newheap = {}
        vals["%ret"] = visit(vals["%ret"], 0)
        for a in arg_addrs:
            if a in st.heap:
                newheap[a] = map_rec_v(st.heap[a], lambda x: visit(x, 1))
        st.heap = newheap
        st.ghost = {k: v for k, v in st.ghost.items() if isinstance(k, tuple) and k and k[0] == "up"}
        st.flatten(set(s for e in ctx.entry.all_lins() for s in e.syms()))
        st.project_syms(extra=[I(e) for e in ctx.entry.all_lins()])
        sh = (kind_, shape(st, set()))
        h = ctx.exits.get(sh)
        if h is None:
            h = ctx.exits[sh] = Head(st)
            # everything but the entry symbols is existential
            ent = set(s for e in ctx.entry.all_lins() for s in e.syms())
            h.syms |= set(s for e in st.all_lins() for s in e.syms() if s not in ent and not s.startswith("len:"))
            self.table_changed = True
            return True
        else:
            # entry symbols are common to both states
            R, changed, new, j = join(h.state, st, h.syms, extra=[
                e for e in ctx.entry.all_lins() if all(s in ctx.syms for s in e.syms())])
            if changed:
                h.state = R
                h.syms |= new
                self.table_changed = True
                return True
        return False

    def prune_value(self, st, r, a):
        if isinstance(r, Inst) and r.ci is not None:
            t = ("pruned", r.ci.qual)
            st.facts[t] = Fact(frozenset([(r.ci.qual, ())]), truth=True)
            return Sy(t)
        if isinstance(r, LRec):
            t = ("pruned", "list")
            st.facts[t] = Fact(frozenset([("builtins.list", ())]))
            return Sy(t)
        return Sy(("pruned", type(r).__name__))

    def apply_exits(self, ctx, params, st, node, fr, fid):
        out = []
        # entry symbols -> caller values
        C = State()
        C.frames = {fid: params}
        C.heap = {a: st.heap[a] for a in ctx.entry.heap if a in st.heap}
        j = Joiner(ctx.entry, C, ctx.syms)
        for n, v in ctx.entry.frames[fid].items():
            if n in params:
                j.sigma(v, params[n])
        for a, r in ctx.entry.heap.items():
            s = C.heap.get(a)
            if isinstance(r, Inst) and isinstance(s, Inst):
                for n in r.f:
                    if n in s.f:
                        j.sigma(r.f[n], s.f[n])
        sig = j.sig
        exits = list(ctx.exits.items())
        for i, ((kind_, sh), h) in enumerate(exits):
            x = st.fork()
            X = h.state
            ren = {}

            def fl(e):
                if not e.t:
                    return e
                m = {}
                for s in e.syms():
                    if s in sig:
                        m[s] = sig[s]
                    elif s.startswith("len:"):
                        continue
                    else:
                        if s not in ren:
                            ren[s] = symlin(fresh("x"))
                        m[s] = ren[s]
                return e.subst(m)
            amap = {}
            cnt = {}
            for a in X.heap:
                if isinstance(a, tuple) and a and a[0] == "ret":
                    # fresh object; older ones of this site become summaries
                    r = X.heap[a]
                    cn = r.ci.name if isinstance(r, Inst) and r.ci is not None else type(r).__name__
                    k = cnt[cn] = cnt.get(cn, 0) + 1
                    o = self.alloc(x, fr, node, Inst(None, {}), "r%s%d" % (cn, k))
                    amap[a] = o.a
            fa = lambda a: amap.get(a, a)  # noqa: E731
            fv = lambda v: map_v(v, fl, fa)  # noqa: E731
            ok = True
            for fct in X.cons.fs:
                if not x.assume(fl(fct)):
                    ok = False
                    break
            if not ok:
                continue
            for (src, p), c in X.chars.items():
                if not x.set_char(src, fl(p), c):
                    ok = False
                    break
            if not ok:
                continue
            for (src, a, b), c in X.ranges.items():
                x.ranges[(src, fl(a), fl(b))] = c
            for a, r in X.heap.items():
                x.heap[fa(a)] = map_rec(r, fv)
            for t, fct in X.facts.items():
                if t not in x.facts:
                    x.facts[t] = fct
                else:
                    x.facts[t] = meet_fact(x.facts[t], fct)
            for k, g in X.ghost.items():
                x.ghost[k] = map_ghost(g, fl, fa)
            x.approx = x.approx | X.approx
            x.trail = (x.trail + X.trail[-6:])[-40:]
            v = fv(X.frames[fid]["%ret"])
            if kind_ == RET:
                self.emit("on_tabreturn", x, ctx, v, node, fr)
                out.append((x, v))
            else:
                self.excs[-1].append((x, v))
        return out

    # ------------------------------------------------------------ analysis driver
    def solve(self, root, maxpass=30):
        """Run root(self) until the table of tabulated functions is stable,
        then once more with the observers attached."""
        obs, self.observers = self.observers, [o for o in self.observers if getattr(o, "always", False)]
        self.final = False
        for p in range(maxpass if self.tab_names or self.table else 0):
            self.passno = p
            self.table_changed = False
            root(self)
            while True:
                todo = [c for c in self.table.values() if c.stale and not c.active]
                if not todo:
                    break
                self.analyse_ctx(max(todo, key=lambda c: (-c.runs // 8, c.depth)))
            if not self.table_changed:
                break
        else:
            p = 0
            if self.table_changed and (self.tab_names or self.table):
                self.unsupported[("fixpoint", "tabulation not stable")] = 1
        self.passes = p + 1
        self.observers = obs
        self.final = True
        for q in range(4):
            # observers see one complete run over a stable table
            self.passno = p + 1 + q
            self.table_changed = False
            self.unsupported = {k: v for k, v in self.unsupported.items() if k[0] == "fixpoint"}
            self.emit("start_pass", q)
            res = root(self)
            if not self.table_changed:
                break
        else:
            self.unsupported[("fixpoint", "final pass not stable")] = 1
        return res


ATTR_IB = ("attr.ib", "attr.attrib", "attr.field", "dataclasses.field")
EXTRA_SUB = {
    "builtins.int": ("builtins.bool",),
    "datetime.date": ("datetime.datetime",),
}


def map_rec_v(r, fv):
    return map_rec(r, fv)


def join_fact(f, g):
    if f == g:
        return f
    ty = None if f.types is None or g.types is None else f.types | g.types
    return Fact(ty, f.neg & g.neg, f.truth if f.truth == g.truth else None, f.ne & g.ne,
                f.const if f.const == g.const else None)


def meet_fact(f, g):
    ty = f.types if g.types is None else g.types if f.types is None else (f.types & g.types)
    return Fact(ty, f.neg | g.neg, f.truth if f.truth is not None else g.truth, f.ne | g.ne,
                f.const if f.const is not None else g.const)


def contains_term(t, sub):
    if t == sub:
        return True
    if isinstance(t, (tuple, frozenset)):
        return any(contains_term(x, sub) for x in t)
    if isinstance(t, Sy):
        return contains_term(t.t, sub)
    if isinstance(t, St):
        return contains_term(t.items, sub)
    if isinstance(t, Tup):
        return contains_term(t.items, sub)
    if isinstance(t, Bm):
        return contains_term(t.self_, sub)
    if isinstance(t, BM):
        return contains_term(t.base, sub)
    return False


def merge_chars(g):
    """Exact merge of states differing in one character fact."""
    changed = len(g) > 1
    while changed:
        changed = False
        for i in range(len(g)):
            for j in range(i + 1, len(g)):
                a, b = g[i].chars, g[j].chars
                diff = [k for k in set(a) | set(b) if a.get(k, ANY) != b.get(k, ANY)]
                if len(diff) == 0:
                    del g[j]
                    changed = True
                    break
                if len(diff) == 1:
                    k = diff[0]
                    c = a.get(k, ANY) | b.get(k, ANY)
                    a.pop(k, None)
                    if not g[i].implied(*k).issubset(c):
                        a[k] = c
                    del g[j]
                    changed = True
                    break
                # one is included in the other
                if all(a.get(k, ANY).issubset(b.get(k, ANY)) for k in diff):
                    del g[i]
                    changed = True
                    break
                if all(b.get(k, ANY).issubset(a.get(k, ANY)) for k in diff):
                    del g[j]
                    changed = True
                    break
            if changed:
                break
    return g


def as_load(t):
    r = getattr(t, "_load", None)
    if r is None:
        import copy
        r = copy.copy(t)
        r.ctx = ast.Load()
        t._load = r
    return r


class _At:
    """A pseudo node for allocation sites derived from another node."""

    def __init__(self, node, tag):
        self._id = node._id + "/" + tag
        self.lineno = getattr(node, "lineno", 0)


_ats = {}


def at(node, tag):
    k = (id(node), tag)
    if k not in _ats:
        _ats[k] = (_At(node, tag), node)
    return _ats[k][0]


def g_node(e, i):
    return at(e, "gen%d" % i)
