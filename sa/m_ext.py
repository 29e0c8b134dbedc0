"""Calls of builtins and of library functions."""
import ast
import builtins

from . import strs
from .charset import CS, ANYCH, EOFSET, by_predicate
from .linear import lin, symlin
from .m_str import StrMethods
from .project import ClassInfo, ext_issub, ext_type
from .state import *  # noqa
from .state import fresh
from .values import *  # noqa
from .values import V

LAZY = {"range", "enumerate", "zip", "reversed", "iter", "map", "filter", "slice", "vars"}
PURE_PARTS = {"functools.partial", "attr.ib", "attr.field", "dataclasses.field", "attr.validators.in_",
              "attr.validators.optional", "attr.validators.and_", "attr.validators.instance_of", "attr.validators.not_",
              "contextlib.suppress", "attr.s", "attr.attrs", "attr.define", "attr.frozen", "attr.Factory",
              "dataclasses.dataclass", "functools.wraps", "functools.lru_cache", "attr.asdict_filter"}
# library functions that neither raise on the values they get here nor touch them
RESULT_TYPES = {"os.path.join": "str", "os.path.dirname": "str", "os.path.basename": "str",
                "os.path.abspath": "str", "os.getcwd": "str", "os.path.isfile": "bool", "os.path.exists": "bool",
                "os.path.isdir": "bool", "tempfile.mkdtemp": "str", "json.dumps": "str", "textwrap.dedent": "str"}


def clean(args):
    return [a for a in args if not isinstance(a, tuple)]


class Exts(StrMethods):
    def ext_const(self, q):
        if q in ("typing.TYPE_CHECKING", "typing_extensions.TYPE_CHECKING"):
            return FALSE
        return Ext(q)

    # ------------------------------------------------------------ external functions
    def call_ext(self, q, args, kw, st, node, fr):
        if q.startswith("builtins."):
            n = q[9:]
            m = getattr(self, "b_" + n, None)
            if m is not None:
                r = m(args, kw, st, node, fr)
                if r is not None:
                    return r
            elif n in LAZY:
                return [(st, Part(Ext(q), tuple(clean(args)) if n != "slice" else self.slice_args(args), ()))]
            t = getattr(builtins, n, None)
            if isinstance(t, type) and issubclass(t, BaseException):
                return [(st, Ex(q, tuple(clean(args))))]
        if q in PURE_PARTS or self.exact and q in ("itertools.count", "itertools.chain", "itertools.takewhile"):
            return [(st, Part(Ext(q), tuple(clean(args)), tuple(kw)))]
        if q in ("typing.cast",):
            return [(st, args[1])]
        if q in ("typing.TypeVar", "typing.NewType", "typing_extensions.TypeVar"):
            return [(st, Ext(q))]
        if q in ("attr.asdict", "dataclasses.asdict", "attrs.asdict") and len(args) == 1 and not kw:
            it = self.vars_items(args[0], st)
            if it is not None:
                return [(st, self.alloc(st, fr, node, DRec(tuple((K(n), x) for n, x in it))))]
        if q == "copy.copy" and args and isinstance(args[0], Sy):
            it = self.vars_items(args[0], st)
            if it is not None:
                ci = self.classes[next(iter(st.fact(args[0].t).types))[0]]
                return [(st, self.alloc(st, fr, node, Inst(ci, dict(it)), ci.name))]
        if q in ("copy.copy",) and isinstance(args[0], Obj):
            r = self.rec(st, args[0].a)
            if isinstance(r, Inst):
                r = Inst(r.ci, dict(r.f), False, r.nt)
            return [(st, self.alloc(st, fr, node, r))]
        if q in ("attr.evolve", "dataclasses.replace", "attr.assoc"):
            return self.evolve(args, kw, st, node, fr)
        if q == "warnings.warn":
            self.emit("on_warn", st, clean(args), kw, node, fr)
            return [(st, NONE_)]
        if q.startswith("re."):
            r = self.re_call(q[3:], args, kw, st, node, fr)
            if r is not None:
                return r
        if q in ("codecs.open", "io.open", "builtins.open"):
            self.emit("on_open", st, q, args, kw, node, fr)
            return self.external(("open", q), args, kw, st, node, fr)
        if ext_issub(q, "builtins.BaseException"):
            return [(st, Ex(q, tuple(clean(args))))]
        if q in RESULT_TYPES:
            return [(st, self.typed(st, ("x", q, tuple(clean(args)), ()), "builtins." + RESULT_TYPES[q]))]
        return self.external(("ext", q), args, kw, st, node, fr)

    def external(self, what, args, kw, st, node, fr):
        if self.opaque_hook is not None:
            r = self.opaque_hook(self, what, args, kw, st, node, fr)
            if r is not None:
                return r
        return self.opaque_call(what, args, kw, st, node, fr)

    def slice_args(self, args):
        a = list(args)
        if len(a) == 1:
            a = [NONE_, a[0]]
        while len(a) < 3:
            a.append(NONE_)
        return tuple(a[:3])

    def evolve(self, args, kw, st, node, fr):
        o = args[0]
        rep = dict((k, v) for k, v in kw if k != "**")
        unknown = any(k == "**" for k, _ in kw)
        if isinstance(o, Obj):
            r = self.rec(st, o.a)
            if isinstance(r, Inst):
                f = {k: v for k, v in r.f.items() if k != "%org"}
                f.update(rep)
                f["%evolved"] = o
                if unknown:
                    f = {k: (v if k.startswith("%") else Top("evolve")) for k, v in f.items()}
                n = self.alloc(st, fr, node, Inst(r.ci, f, False, r.nt), r.ci.name if r.ci else "")
                self.emit("on_evolve", st, n, o, kw, node, fr)
                return self.evolved(n, r.ci, rep, st, node, fr)
        if isinstance(o, Sy):
            f = st.fact(o.t)
            ci = None
            if f.types is not None and len(f.types) == 1:
                ci = self.classes.get(next(iter(f.types))[0])
            if ci is not None:
                fl = {}
                for n, _, _, _ in self.attr_fields(ci):
                    fl[n] = self.sym_attr(o, n, st, node, fr)[0][1]
                fl.update(rep)
                fl["%evolved"] = o
                n = self.alloc(st, fr, node, Inst(ci, fl), ci.name)
                self.emit("on_evolve", st, n, o, kw, node, fr)
                return self.evolved(n, ci, rep, st, node, fr)
        return None or [(st, Sy(("evolve", o, tuple(sorted(rep.items(), key=lambda p: p[0])))))]

    def evolved(self, n, ci, rep, st, node, fr):
        """The constructor's checks on the fields that change."""
        fields = self.attr_fields(ci) if ci is not None else []
        if fields and any(k not in [x[0] for x in fields] for k in rep):
            self.rx(st, "TypeError", node, fr, K("unexpected keyword argument"))
            return []
        ys = [st]
        for k, v, c, ann in fields:
            vd = dict(v.kw).get("validator") if isinstance(v, Part) else None
            if vd is not None and k in rep:
                ys = [z for y in ys for z in self.validate(vd, n, k, rep[k], y, node, fr)]
        return [(y, n) for y in ys]

    def vars_items(self, o, st):
        """[(name, value)] of an object's own attributes, None if unknown."""
        r = self.rec(st, o.a) if isinstance(o, Obj) else None
        if isinstance(r, Inst):
            return [(n, x) for n, x in r.f.items() if not n.startswith("%")]
        if isinstance(o, Sy):
            f = st.fact(o.t)
            ci = self.classes.get(next(iter(f.types))[0]) if f.types is not None and len(f.types) == 1 else None
            names = [x[0] for x in self.attr_fields(ci)] if ci is not None and any(
                getattr(b, "attrs", False) for b in ci.mro()) else []
            ov = st.heap.get(o)
            if names:
                return [(n, ov.f[n] if isinstance(ov, Inst) and n in ov.f else Sy(("a", o, n))) for n in names]
        return None

    # ------------------------------------------------------------ methods of builtin values
    def call_bm(self, bm, args, kw, st, node, fr):
        b, name = bm.base, bm.name
        if isinstance(b, Sup):
            return self.super_call(b, name, args, kw, st, node, fr)
        if is_str(b):
            return self.str_method(b, name, args, kw, st, node, fr)
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            x = self.container_method(b, r, name, args, kw, st, node, fr)
            if x is not None:
                return x
            if isinstance(r, Inst):
                return self.inst_method(b, r, name, args, kw, st, node, fr)
        if isinstance(b, Tup):
            if name == "index":
                return [(st, I_(symlin(fresh("i"))))]
            if name == "count":
                return [(st, I_(symlin(fresh("i"))))]
        if isinstance(b, Prop):
            return [(st, b)]
        if isinstance(b, Cl):
            return self.class_call(b, name, args, kw, st, node, fr)
        if isinstance(b, Part) and isinstance(b.f, Ext):
            if b.f.q == "builtins.vars":
                return self.vars_method(b, name, args, kw, st, node, fr)
            if b.f.q == "re.compile" and b.args and len(b.args) == 1 and len(clean(args)) >= 1:
                r = self.re_call(name, [b.args[0]] + list(args), kw, st, node, fr)
                if r is not None:
                    return r
            return [(st, Sy(("m", name, b, tuple(clean(args)))))]
        if isinstance(b, K):
            if all(isinstance(a, K) for a in args) and isinstance(b.v, (int, float, bytes, tuple)):
                try:
                    return self.native_value(getattr(b.v, name)(*[a.v for a in args]), st, node, fr)
                except Exception as e:
                    self.rx(st, type(e).__name__, node, fr, K(str(e)))
                    return []
        if isinstance(b, Sy):
            r = self.sym_method(b, name, args, kw, st, node, fr)
            if r is not None:
                return r
        return self.external(("m", name, b), args, kw, st, node, fr)

    def inst_method(self, b, r, name, args, kw, st, node, fr):
        """Inherited method of a builtin base on an instance of a repo class."""
        if name == "__class__":
            return [(st, Cl(r.ci))]
        if name in ("__eq__", "__ne__", "__hash__", "__repr__", "__str__", "__sizeof__", "__dir__"):
            return [(st, Sy(("m", name, b, tuple(clean(args)))))]
        return self.external(("m", name, b), args, kw, st, node, fr)

    def super_call(self, sup, name, args, kw, st, node, fr):
        ci, o = sup.ci, sup.self_
        if name.startswith("%object."):
            n = name[8:]
            if n == "__init__":
                if args or kw:
                    self.rx(st, "TypeError", node, fr, K("object.__init__() takes exactly one argument"))
                    if any(isinstance(a, tuple) for a in args) or any(k == "**" for k, _ in kw):
                        u = [v for k, v in kw if k == "**"]
                        if all(isinstance(v, Obj) and isinstance(self.rec(st, v.a), DRec)
                               and not self.rec(st, v.a).items for v in u) and len(u) == len(kw) and not args:
                            return [(st, NONE_)]
                    return []
                return [(st, NONE_)]
            if n == "__new__":
                c = args[0] if args and isinstance(args[0], Cl) else o if isinstance(o, Cl) else None
                if c is None:
                    return [(st, Top("__new__"))]
                return [(st, self.alloc(st, fr, node, Inst(c.ci, {}), c.ci.name))]
            if n == "__setattr__" and len(args) == 2 and isinstance(args[0], K):
                return [(x, NONE_) for x in self.setattr_(o, args[0].v, args[1], st, node, fr)]
            if hasattr(object, n):
                return [(st, Sy(("m", n, o, tuple(clean(args)))))]
            self.rx(st, "AttributeError", node, fr, K("super object has no attribute %s" % n))
            return []
        if name == "%attrs":
            return [(x, NONE_) for x in self.attrs_init(o, ci, args, kw, st, node, fr)]
        if name == "__new__":
            c = args[0] if args and isinstance(args[0], Cl) else o if isinstance(o, Cl) else None
            if c is None:
                return [(st, Top("__new__"))]
            natives = [x for x in c.ci.ext_bases() if x not in ("builtins.object", "?unknown", "typing.Generic",
                                                               "abc.ABC")]
            pargs = tuple(clean(args[1:]))
            obj = self.alloc(st, fr, node, Inst(c.ci, {}), c.ci.name)
            self.emit("on_alloc", st, obj, c.ci, node, fr, args[1:], kw)
            if natives:
                nt = Sy(("nat", natives[0], pargs, tuple((k, v) for k, v in kw if k != "**")))
                st.heap[obj.a] = Inst(c.ci, {}, False, nt)
                self.emit("on_native", st, obj, c.ci, natives, list(args[1:]), kw, node, fr)
            return [(st, obj)]
        if name == "__init__":
            r = self.rec(st, o.a) if isinstance(o, Obj) else None
            if isinstance(r, Inst):
                natives = [x for x in r.ci.ext_bases() if x not in ("builtins.object", "?unknown")]
                if any(ext_issub(x, "builtins.BaseException") for x in natives):
                    st.heap[o.a] = r.set("args", Tup(tuple(clean(args))))
                elif natives and r.nt is None:
                    self.native_init(st, o, r.ci, natives, args, kw, node, fr)
            return [(st, NONE_)]
        # an inherited method of the external base
        return self.external(("super", name, o), args, kw, st, node, fr)

    def class_call(self, c, name, args, kw, st, node, fr):
        if name == "__new__":
            return self.super_call(Sup(c.ci, c), "__new__", args or [c], kw, st, node, fr)
        return self.external(("cm", name, c), args, kw, st, node, fr)

    def vars_method(self, p, name, args, kw, st, node, fr):
        o = p.args[0]
        if name in ("items", "keys", "values"):
            return [(st, Part(Ext("builtins.dict." + name), (p,), ()))]
        if name == "get" and isinstance(args[0], K):
            self.excs.append([])
            r = self.getattr_(o, args[0].v, st.fork(), node, fr)
            lost = self.excs.pop()
            return r + [(y, args[1] if len(args) > 1 else NONE_) for y, _ in lost]
        if name == "copy":
            r = self.rec(st, o.a) if isinstance(o, Obj) else None
            if isinstance(r, Inst) and "%org" not in r.f:
                return [(st, self.alloc(st, fr, node, DRec(tuple((K(k), v) for k, v in r.f.items()))))]
            it = self.vars_items(o, st) if isinstance(o, Sy) else None
            if it is not None:
                return [(st, self.alloc(st, fr, node, DRec(tuple((K(k), v) for k, v in it))))]
            return [(st, self.alloc(st, fr, node, DRec((), frozenset(), ("vars", o))))]
        if name in ("update", "pop", "clear", "setdefault", "__setitem__"):
            self.emit("on_mutate", st, p, name, tuple(clean(args)), node, fr)
            if name == "update":
                return self.vars_update(o, args, kw, st, node, fr)
            return [(st, NONE_)]
        return [(st, Sy(("m", name, p, tuple(clean(args)))))]

    def vars_update(self, o, args, kw, st, node, fr):
        names = None
        r = self.rec(st, o.a) if isinstance(o, Obj) else None
        if isinstance(r, Inst):
            names = [n for n in r.f if not n.startswith("%")]
        pairs = []
        for a in clean(args):
            if isinstance(a, Part) and isinstance(a.f, Ext) and a.f.q == "builtins.vars":
                b = a.args[0]
                it = self.vars_items(b, st)
                if it is not None:
                    pairs += it
                    continue
                if isinstance(b, Sy) and names is not None:
                    for n in names:
                        ov = st.heap.get(b)
                        pairs.append((n, ov.f[n] if isinstance(ov, Inst) and n in ov.f else Sy(("a", b, n))))
                    continue
            rd = self.rec(st, a.a) if isinstance(a, Obj) else None
            if isinstance(rd, DRec) and rd.rest is None and rd.org is None and all(isinstance(k, K) for k, _ in rd.items):
                pairs += [(k.v, x) for k, x in rd.items]
            elif names is not None:
                # unknown entries
                pairs += [(n, Sy(("upd", n, a))) for n in names]
        pairs += [(k, v) for k, v in kw if k != "**"]
        cur = [st]
        for n, x in pairs:
            cur = [z for y in cur for z in self.setattr_(o, n, x, y, node, fr)]
        return [(y, NONE_) for y in cur]

    # ------------------------------------------------------------ builtin functions
    def b_isinstance(self, args, kw, st, node, fr):
        v, c = args
        cl = list(c.items) if isinstance(c, Tup) else [c]
        if any(isinstance(x, Tup) for x in cl):
            cl = [y for x in cl for y in (x.items if isinstance(x, Tup) else (x,))]
        names = [self.class_name(x) for x in cl]
        if any(n is None for n in names):
            return self.split_term(("isinstance", v, c), True, st)
        return self.isinstance_(v, names, st)

    def type_name(self, v, st):
        """Exact class name of a non-symbolic value."""
        if isinstance(v, K):
            return "builtins." + type(v.v).__name__
        if is_str(v):
            return "builtins.str"
        if isinstance(v, (I, Od)):
            return "builtins.int"
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, Inst):
                return r.ci.qual if r.ci is not None else None
            return {LRec: "builtins.list", DRec: "builtins.dict", SRec: "builtins.set"}.get(type(r))
        if isinstance(v, Tup):
            return "builtins.tuple"
        if isinstance(v, (Fn, Bm, Part, CMF)):
            return "builtins.function"
        if isinstance(v, (Cl, Ext)):
            return "builtins.type"
        if isinstance(v, Ex):
            return v.q
        if isinstance(v, Gen):
            return "builtins.generator"
        return None

    def isinstance_(self, v, names, st):
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.const is not None:
                n = self.type_name(f.const, st)
                return [(st, TRUE if any(self.tsub(n, t) for t in names) else FALSE)]
            if f.types is not None:
                yes = frozenset(a for a in f.types if any(self.tsub(a[0], n) for n in names))
                no = f.types - yes
                out = []
                if yes:
                    y = st.fork() if no else st
                    if no:
                        y.facts[v.t] = f.with_(types=yes)
                    out.append((y, TRUE))
                if no:
                    if yes:
                        st.facts[v.t] = f.with_(types=no)
                    out.append((st, FALSE))
                return out
            if all(any(self.tsub(n, g) for g in f.neg) for n in names):
                return [(st, FALSE)]
            pos = frozenset((x, ()) for n in names for x in self.expand_class(n)
                            if not any(self.tsub(x, g) for g in f.neg))
            out = []
            if pos:
                y = st.fork()
                y.facts[v.t] = f.with_(types=pos)
                out.append((y, TRUE))
            st.facts[v.t] = f.with_(neg=f.neg | frozenset(names))
            out.append((st, FALSE))
            return out
        n = self.type_name(v, st)
        if n is None:
            return [(st.fork(), TRUE), (st, FALSE)]
        return [(st, TRUE if any(self.tsub(n, t) or (t == "builtins.object") for t in names) else FALSE)]

    def b_issubclass(self, args, kw, st, node, fr):
        a, b = args
        n = self.class_name(a)
        cl = [self.class_name(x) for x in (b.items if isinstance(b, Tup) else [b])]
        if n is not None and all(x is not None for x in cl):
            return [(st, TRUE if any(self.tsub(n, x) for x in cl) else FALSE)]
        return self.split_term(("issubclass", a, b), True, st)

    def b_callable(self, args, kw, st, node, fr):
        v = args[0]
        if isinstance(v, (Fn, Bm, BM, Cl, Ext, Part, CMF, Nat)):
            return [(st, TRUE)]
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is not None:
                yes = frozenset(a for a in f.types if self.type_callable(a[0]))
                no = f.types - yes
                if not no:
                    return [(st, TRUE)]
                if not yes:
                    return [(st, FALSE)]
            return self.split_term(("callable", v), True, st)
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, Inst) and r.ci is not None:
                return [(st, TRUE if self.type_callable(r.ci.qual) else FALSE)]
        return [(st, FALSE)]

    def b_len(self, args, kw, st, node, fr):
        v = args[0]
        if isinstance(v, K):
            try:
                return [(st, K(len(v.v)))]
            except TypeError as e:
                self.rx(st, "TypeError", node, fr, K(str(e)))
                return []
        if isinstance(v, Tup):
            return [(st, K(len(v.items)))]
        if isinstance(v, Src):
            return [(st, I_(len_sym(v.name)))]
        if isinstance(v, Ch):
            return [(st, K(1))]
        if isinstance(v, St):
            if len(v.items) == 1 and v.items[0][0] == "sl":
                a = v.items[0]
                d = a[3] - a[2]
                if st.entails(d):
                    return [(st, I_(d))]
            mn = strs.minlen_items(v.items, st)
            mx = strs.maxlen_items(v.items, st)
            if mn == mx and mx is not None:
                return [(st, K(mn))]
            s = symlin("len%d" % (hash(v) % 10 ** 9))
            st.assume(s - mn)
            if mx is not None:
                st.assume(lin(mx) - s)
            return [(st, I_(s))]
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, LRec):
                if r.exact():
                    return [(st, K(len(r.tail)))]
                s = symlin(fresh("len"))
                st.assume(s - r.minlen())
                return [(st, I_(s))]
            if isinstance(r, DRec):
                if r.rest is None and r.org is None:
                    return [(st, K(len(r.items)))]
                s = symlin(fresh("len"))
                st.assume(s - len([k for k, _ in r.items if isinstance(k, K)]))
                return [(st, I_(s))]
            if isinstance(r, SRec):
                if r.rest is None and r.org is None and (len(r.items) <= 1 or all(isinstance(k, K) for k in r.items)):
                    return [(st, K(len(r.items)))]
                s = symlin(fresh("len"))
                st.assume(s - (1 if r.some else 0))
                return [(st, I_(s))]
            if isinstance(r, Inst) and r.ci is not None:
                if r.ci.lookup("__len__")[1] is not None:
                    return self.callmethod(v, "__len__", [], st, node, fr)
                if r.nt is None and not any(x != "builtins.object" for x in r.ci.ext_bases()):
                    self.rx(st, "TypeError", node, fr, K("object has no len()"))
                    return []
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.const is not None:
                return self.b_len([f.const], kw, st, node, fr)
            if f.types is not None:
                bad = frozenset(a for a in f.types if a[0] in ("builtins.NoneType", "builtins.int", "builtins.float",
                                                               "builtins.bool"))
                if bad:
                    y = st.fork()
                    y.facts[v.t] = f.with_(types=bad)
                    self.rx(y, "TypeError", node, fr, K("object has no len()"))
                    if bad == f.types:
                        return []
                    f = f.with_(types=f.types - bad)
                    st.facts[v.t] = f
            t = ("len", v)
            if self.linear_ints:
                s = symlin("len:%s:%s" % (hash(v) % 10 ** 9, st.ghost.get(("lenver", v), 0)))
                st.assume(s - (1 if f.truth else 0))
                if f.truth is False:
                    return [(st, K(0))]
                return [(st, I_(s))]
            st.facts.setdefault(t, Fact(frozenset([("builtins.int", ())])))
            return [(st, Sy(t))]
        return [(st, Sy(("len", v)))]

    def b_type(self, args, kw, st, node, fr):
        if len(args) != 1:
            return [(st, Sy(("newtype",)))]
        v = args[0]
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is not None and len(f.types) == 1:
                n = next(iter(f.types))[0]
                if n in self.classes:
                    return [(st, Cl(self.classes[n]))]
                return [(st, Ext(n))]
            return [(st, Sy(("type", v)))]
        n = self.type_name(v, st)
        if n is None:
            return [(st, Sy(("type", v)))]
        return [(st, Cl(self.classes[n]) if n in self.classes else Ext(n))]

    def b_str(self, args, kw, st, node, fr):
        if not args:
            return [(st, K(""))]
        v = args[0]
        if len(args) > 1:
            return [(st, self.typed(st, ("decode",) + tuple(clean(args)), "builtins.str"))]
        if isinstance(v, K):
            return [(st, K(str(v.v)))]
        if is_str(v):
            return [(st, v)]
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, Inst) and r.ci is not None:
                for nm in ("__str__", "__repr__"):
                    if r.ci.lookup(nm)[1] is not None:
                        return self.callmethod(v, nm, [], st, node, fr)
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is not None and all(a[0] == "builtins.str" for a in f.types):
                return [(st, v)]
            if f.types is None or any(a[0] not in ("builtins.int", "builtins.float", "builtins.NoneType",
                                                   "builtins.bool") for a in f.types):
                self.emit("on_opaque", st, ("str", v), args, kw, node, fr)
        return [(st, self.typed(st, ("str", v), "builtins.str"))]

    def b_repr(self, args, kw, st, node, fr):
        if isinstance(args[0], K):
            return [(st, K(repr(args[0].v)))]
        return [(st, self.typed(st, ("repr", args[0]), "builtins.str"))]

    b_ascii = b_repr

    def b_format(self, args, kw, st, node, fr):
        return [(st, self.typed(st, ("fmt",) + tuple(clean(args)), "builtins.str"))]

    def b_bool(self, args, kw, st, node, fr):
        if not args:
            return [(st, FALSE)]
        return [(x, TRUE if t else FALSE) for x, t in self.truth(args[0], st, None, fr)]

    def b_int(self, args, kw, st, node, fr):
        if not args:
            return [(st, K(0))]
        v = args[0]
        if isinstance(v, K) and all(isinstance(a, K) for a in args):
            try:
                return [(st, K(int(*[a.v for a in args])))]
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
        if is_int(v):
            return [(st, v)]
        base = args[1].v if len(args) > 1 and isinstance(args[1], K) else 10
        ok = False
        if is_str(v):
            items = strs.debrick(strs.atoms_of(v, st), st)
            cs = strs.all_cs(items)
            digits = "0123456789abcdefABCDEF" if base == 16 else "0123456789"
            ok = cs is not None and cs.issubset(CS.of(*digits)) and strs.minlen_items(items, st) >= 1 \
                and (base == 16 or strs.maxlen_items(items, st) is not None)
            self.emit("on_int", st, v, base, ok, node, fr)
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is not None and all(a[0] in ("builtins.int", "builtins.bool") for a in f.types):
                return [(st, v)]
        if not ok:
            y = st.fork()
            self.rx(y, "ValueError", node, fr, K("invalid literal for int()"))
        return [(st, self.typed(st, ("int", v) + tuple(clean(args[1:])), "builtins.int"))]

    def b_float(self, args, kw, st, node, fr):
        v = args[0] if args else K(0.0)
        if isinstance(v, K):
            try:
                return [(st, K(float(v.v)))]
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
        if not is_int(v):
            self.rx(st.fork(), "ValueError", node, fr, K("could not convert string to float"))
        return [(st, self.typed(st, ("float", v), "builtins.float"))]

    def b_chr(self, args, kw, st, node, fr):
        v = args[0]
        if isinstance(v, Od):
            return [(st, Ch(v.src, v.p))]
        if isinstance(v, K):
            try:
                return [(st, K(chr(v.v)))]
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
        self.rx(st.fork(), "ValueError", node, fr, K("chr() arg not in range"))
        return [(st, self.typed(st, ("chr", v), "builtins.str"))]

    def b_ord(self, args, kw, st, node, fr):
        v = args[0]
        if isinstance(v, Ch):
            return [(st, Od(v.src, v.p))]
        if isinstance(v, K):
            try:
                return [(st, K(ord(v.v)))]
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
        if is_str(v):
            items = strs.debrick(strs.atoms_of(v, st), st)
            if not (strs.minlen_items(items, st) == 1 and strs.maxlen_items(items, st) == 1):
                self.rx(st.fork(), "TypeError", node, fr, K("ord() expected a character"))
            s = symlin(fresh("o"))
            st.assume(s)
            return [(st, I_(s))]
        self.rx(st.fork(), "TypeError", node, fr, K("ord() expected string of length 1"))
        return [(st, self.typed(st, ("ord", v), "builtins.int"))]

    def to_list(self, v, st, node, fr, mutable=True):
        """[(st, list object)] with the elements of v."""
        o = self.alloc(st, fr, node, LRec())
        if v is None:
            return [(st, o)]
        if isinstance(v, Part) and isinstance(v.f, Ext):
            items = None
            if v.f.q in ("builtins.iter", "builtins.reversed"):
                items = self.seq_items(v.args[0], st)
                if items is not None:
                    items = items[::-1] if v.f.q.endswith("reversed") else items
                elif v.f.q == "builtins.iter":
                    return self.to_list(v.args[0], st, node, fr)
            if items is not None:
                st.heap[o.a] = LRec(tail=tuple(items))
                return [(st, o)]
            out = []
            st.frames[fr.fid]["%tl" + node._id] = o

            def body(y, el):
                oo = y.frames[fr.fid]["%tl" + node._id]
                self.list_append(oo, el, y, node, fr, comp=True)
                return [(NEXT, y, None)]
            for oc in self.iterate(v, st, fr, node, body):
                if oc[0] in (NEXT, BRK):
                    y = oc[1]
                    out.append((y, y.frames[fr.fid].pop("%tl" + node._id)))
                elif oc[0] == EXC:
                    oc[1].frames[fr.fid].pop("%tl" + node._id, None)
                    self.excs[-1].append((oc[1], oc[2]))
            return out
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, LRec):
                st.heap[o.a] = LRec(r.pre, r.tail, r.pairs, r.plast, r.org, r.pmin)
                return [(st, o)]
            if isinstance(r, DRec) and r.rest is None and r.org is None:
                st.heap[o.a] = LRec(tail=tuple(k for k, _ in r.items))
                return [(st, o)]
            if isinstance(r, SRec):
                vals = list(r.items) + list(r.rest or ())
                st.heap[o.a] = LRec(frozenset((x, 2) for x in vals), (), frozenset([("?", "?")]), frozenset("?"),
                                    None, 0) if vals else LRec()
                return [(st, o)]
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is not None and all(a[0] in ("builtins.list", "builtins.tuple") for a in f.types):
                st.heap[o.a] = LRec(org=v.t)
                return [(st, o)]
        return [(x, o) for x in self.list_extend_states(o, v, st, node, fr)]

    def b_list(self, args, kw, st, node, fr):
        return self.to_list(args[0] if args else None, st, node, fr)

    def b_sorted(self, args, kw, st, node, fr):
        out = []
        for x, o in self.to_list(args[0], st, node, fr):
            r = x.heap[o.a]
            for k, v in kw:
                if k == "key" and not isinstance(v, (K, BM, Ext)):
                    for e in r.elems()[:6]:
                        self.call(v, [self.materialize(e, x, fr, node)], [], x.fork(), node, fr)
            if not (r.exact() and len(r.tail) < 2):
                mn = r.minlen()
                if r.org is None:
                    self.weaken_list(x, o)
                    q = x.heap[o.a]
                    x.heap[o.a] = LRec(q.pre, q.tail, q.pairs, q.plast, q.org, min(mn, 1))
            out.append((x, o))
        return out

    def b_tuple(self, args, kw, st, node, fr):
        if not args:
            return [(st, Tup(()))]
        out = []
        for x, o in self.to_list(args[0], st, node, fr):
            r = x.heap[o.a]
            if r.exact():
                out.append((x, Tup(r.tail)))
            else:
                out.append((x, o))
        return out

    def b_set(self, args, kw, st, node, fr):
        o = self.alloc(st, fr, node, SRec())
        if not args:
            return [(st, o)]
        out = []
        for x, l in self.to_list(args[0], st, node, fr):
            r = x.heap[l.a]
            if r.exact():
                for v in r.tail:
                    self.set_add(o, v, x)
            else:
                x.heap[o.a] = SRec(frozenset(), frozenset(r.elems()), r.org)
            out.append((x, o))
        return out

    b_frozenset = b_set

    def b_dict(self, args, kw, st, node, fr):
        d = DRec()
        if args:
            a = args[0]
            items = self.seq_items(a, st)
            if items is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in items):
                for x in items:
                    d = self.dict_put(d, x.items[0], x.items[1], st)
            elif isinstance(a, Sy):
                d = DRec((), frozenset(), a.t)
            elif isinstance(a, Part) and isinstance(a.f, Ext) and a.f.q in ("builtins.map", "builtins.zip") \
                    or isinstance(a, Gen):
                out = []
                for x, l in self.to_list(a, st, node, fr):
                    out.extend(self.b_dict([l], kw, x, node, fr))
                return out
            elif isinstance(a, Obj) and isinstance(self.rec(st, a.a), LRec):
                r = self.rec(st, a.a)
                vals = [e.items[1] for e in r.elems() if isinstance(e, Tup) and len(e.items) == 2]
                keys = [e.items[0] for e in r.elems() if isinstance(e, Tup) and len(e.items) == 2]
                d = DRec((), frozenset(vals or [Top("dict")]), None, frozenset(keys))
            else:
                d = self.dict_update(d, a, st)
        for k, v in kw:
            d = self.dict_update(d, v, st) if k == "**" else self.dict_put(d, K(k), v, st)
        return [(st, self.alloc(st, fr, node, d))]

    def b_any(self, args, kw, st, node, fr):
        return self.quant(args, st, node, fr, True)

    def b_all(self, args, kw, st, node, fr):
        return self.quant(args, st, node, fr, False)

    def quant(self, args, st, node, fr, stop):
        out = []

        def body(y, v):
            r = []
            for z, t in self.truth(v, y):
                r.append((BRK if t == stop else NEXT, z, None))
            return r
        for o in self.iterate(args[0], st, fr, node, body):
            if o[0] == NEXT:
                out.append((o[1], FALSE if stop else TRUE))
            elif o[0] == BRK:
                out.append((o[1], TRUE if stop else FALSE))
            elif o[0] == EXC:
                self.excs[-1].append((o[1], o[2]))
        return out

    def b_next(self, args, kw, st, node, fr):
        out = []

        def body(y, v):
            return [(BRK, y, v)]
        got = []

        def body2(y, v):
            y.frames[fr.fid]["%nx" + node._id] = v
            return [(BRK, y, None)]
        for o in self.iterate(args[0], st, fr, node, body2):
            if o[0] == BRK:
                out.append((o[1], o[1].frames[fr.fid].pop("%nx" + node._id)))
            elif o[0] == NEXT:
                if len(args) > 1:
                    out.append((o[1], args[1]))
                else:
                    self.rx(o[1], "StopIteration", node, fr)
            elif o[0] == EXC:
                self.excs[-1].append((o[1], o[2]))
        return out

    def b_sum(self, args, kw, st, node, fr):
        return [(st, I_(symlin(fresh("i"))))]

    def b_abs(self, args, kw, st, node, fr):
        if isinstance(args[0], K):
            return [(st, K(abs(args[0].v)))]
        return [(st, Sy(("abs", args[0])))]

    def b_min(self, args, kw, st, node, fr):
        return self.minmax(args, kw, st, node, fr, True)

    def b_max(self, args, kw, st, node, fr):
        return self.minmax(args, kw, st, node, fr, False)

    def minmax(self, args, kw, st, node, fr, least):
        if len(args) == 1:
            s = self.seq_items(args[0], st)
            if s is None:
                if not any(k == "default" for k, _ in kw):
                    mn = 0
                    if isinstance(args[0], Obj):
                        r = self.rec(st, args[0].a)
                        mn = r.minlen() if isinstance(r, LRec) else 0
                    if not mn:
                        self.rx(st.fork(), "ValueError", node, fr, K("arg is an empty sequence"))
                return [(st, Sy(("minmax", least, args[0])))]
            args = s
            if not args:
                for k, v in kw:
                    if k == "default":
                        return [(st, v)]
                self.rx(st, "ValueError", node, fr, K("arg is an empty sequence"))
                return []
        if any(k == "key" for k, _ in kw):
            return self.choose(list(args), st, fr, node)
        if len(args) > 1 and not kw:
            if all(isinstance(a, K) and isinstance(a.v, (int, float)) for a in args):
                return [(st, K((min if least else max)(a.v for a in args)))]
            inf = float("inf") if least else float("-inf")
            rest = [a for a in args if not (isinstance(a, K) and isinstance(a.v, float) and a.v == inf)]
            if len(rest) < len(args) and rest and all(is_int(a) for a in rest):
                args = rest
        if all(is_int(a) for a in args):
            ls = [as_lin(a) for a in args]
            out = []
            for i, x in enumerate(ls):
                y = st.fork()
                if all(y.assume((z - x) if least else (x - z)) for j, z in enumerate(ls) if j != i):
                    out.append((y, I_(x)))
            return out
        return [(st, Sy(("minmax", least, tuple(args))))]

    def b_getattr(self, args, kw, st, node, fr):
        o, n = args[0], args[1]
        if isinstance(n, Sy) and st.fact(n.t).const is not None:
            n = st.fact(n.t).const
        if isinstance(n, K):
            if not isinstance(n.v, str):
                self.rx(st, "TypeError", node, fr)
                return []
            if len(args) < 3:
                return self.getattr_(o, n.v, st, node, fr)
            self.excs.append([])
            r = self.getattr_(o, n.v, st, node, fr)
            out = list(r)
            for y, e in self.excs.pop():
                if isinstance(e, Ex) and e.q == "builtins.AttributeError":
                    out.append((y, args[2]))
                else:
                    self.excs[-1].append((y, e))
            return out
        if len(args) > 2:
            return [(st.fork(), args[2]), (st, Sy(("getattr", o, n)))]
        vals = self.enum_attrs(o, n, st)
        if vals is not None:
            return vals
        self.rx(st.fork(), "AttributeError", node, fr)
        return [(st, Sy(("getattr", o, n)))]

    def enum_attrs(self, o, n, st):
        return None

    def b_hasattr(self, args, kw, st, node, fr):
        o, n = args
        if isinstance(n, K):
            self.excs.append([])
            s0 = st.fork()
            r = self.getattr_(o, n.v, st, node, fr)
            ex = self.excs.pop()
            if isinstance(o, Sy) and st.fact(o.t).types is None:
                return self.split_term(("hasattr", o, n), True, s0)
            return [(y, TRUE) for y, _ in r] + [(y, FALSE) for y, _ in ex]
        return self.split_term(("hasattr", o, n), True, st)

    def b_setattr(self, args, kw, st, node, fr):
        if isinstance(args[1], K):
            return [(x, NONE_) for x in self.setattr_(args[0], args[1].v, args[2], st, node, fr)]
        self.emit("on_mutate", st, args[0], "setattr", tuple(args[1:]), node, fr)
        o = args[0]
        if isinstance(o, Obj):
            r = self.rec(st, o.a)
            if isinstance(r, Inst):
                f = dict(r.f)
                f["%any"] = args[2]
                st.heap[o.a] = Inst(r.ci, f, r.many, r.nt)
        return [(st, NONE_)]

    def b_delattr(self, args, kw, st, node, fr):
        if isinstance(args[1], K):
            return [(x, NONE_) for x in self.delattr_(args[0], args[1].v, st, node, fr)]
        self.emit("on_mutate", st, args[0], "delattr", tuple(args[1:]), node, fr)
        return [(st, NONE_)]

    def b_print(self, args, kw, st, node, fr):
        self.emit("on_print", st, args, kw, node, fr)
        return [(st, NONE_)]

    def b_hash(self, args, kw, st, node, fr):
        return [(st, self.typed(st, ("hash", args[0]), "builtins.int"))]

    def b_id(self, args, kw, st, node, fr):
        return [(st, self.typed(st, ("id", args[0]), "builtins.int"))]

    def b_object(self, args, kw, st, node, fr):
        return [(st, self.alloc(st, fr, node, Inst(None, {}), "object"))]

    def b_property(self, args, kw, st, node, fr):
        return [(st, Prop(args[0]))] if args else None

    def b_staticmethod(self, args, kw, st, node, fr):
        return [(st, SM(args[0]))]

    def b_classmethod(self, args, kw, st, node, fr):
        return [(st, CM(args[0]))]

    def b_round(self, args, kw, st, node, fr):
        return [(st, Sy(("round",) + tuple(clean(args))))]

    # ------------------------------------------------------------ regular expressions
    def re_call(self, name, args, kw, st, node, fr):
        if name == "compile":
            return [(st, Part(Ext("re.compile"), tuple(clean(args)), ()))]
        if name in ("match", "fullmatch", "search"):
            if len(args) >= 2 and isinstance(args[0], K) and isinstance(args[0].v, str):
                return self.re_match(name, args[0].v, args[1], st, node, fr)
        if name == "sub" and len(args) >= 3 and isinstance(args[0], K):
            return self.re_sub(args[0].v, args[1], args[2], st, node, fr)
        return None

    def re_match(self, name, pat, s, st, node, fr):
        v = s
        t = ("re", name, pat, v)
        if isinstance(v, Sy) and st.fact(v.t).types is None:
            self.rx(st.fork(), "TypeError", node, fr, K("expected string"))
        f = st.fact(t)
        if f.truth is not None:
            return [(st, Sy(t))]
        y = st.fork()
        y.facts[t] = Fact(const=NONE_, truth=False)
        st.facts[t] = Fact(frozenset([("re.Match", ())]), truth=True)
        return [(st, Sy(t)), (y, NONE_)]

    def re_sub(self, pat, rep, s, st, node, fr):
        from .rx import single_char_pattern
        sc = single_char_pattern(pat)
        if sc is not None and isinstance(rep, K) and is_str(s) and "\\" not in rep.v:
            r = self.map_chars(strs.atoms_of(s, st), {sc[0]: strs.lit_atoms(rep.v)}, st)
            if r is not None:
                return [(st, strs.mk(r))]
        if isinstance(rep, (Fn, Bm)):
            m = Sy(("rematch", pat, s, node._id))
            st.facts[m.t] = Fact(frozenset([("re.Match", ())]), truth=True)
            for y, v in self.call(rep, [m], [], st.fork(), node, fr):
                pass
        self.emit("on_resub", st, pat, rep, s, node, fr)
        return [(st, self.typed(st, ("resub", pat, rep, s), "builtins.str"))]


NEXT, BRK, CNT, RET, EXC = "next", "brk", "cnt", "ret", "exc"
