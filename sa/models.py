"""Attributes, iteration and containers."""
import ast

from . import strs
from .charset import CS, ANYCH
from .linear import Lin, lin
from .m_ext import Exts
from .m_ops import Ops
from .project import ClassInfo, ext_type
from .state import *  # noqa
from .state import fresh
from .values import *  # noqa
from .values import V

NEXT, BRK, CNT, RET, EXC = "next", "brk", "cnt", "ret", "exc"
STR_T = frozenset([("builtins.str", ())])
NATIVE = {"builtins.str", "builtins.int", "builtins.float", "builtins.list", "builtins.dict", "builtins.tuple",
          "builtins.set", "builtins.frozenset", "builtins.bytes", "builtins.bool", "decimal.Decimal",
          "datetime.date", "datetime.datetime"}


class Models(Ops, Exts):
    # ------------------------------------------------------------ types from annotations
    def ann_types(self, a, mod, depth=0):
        """Exact type atoms of an annotation, or None (unknown)."""
        if a is None or depth > 12:
            return None
        if isinstance(a, ast.Constant):
            if a.value is None:
                return frozenset([("builtins.NoneType", ())])
            if isinstance(a.value, str):
                try:
                    return self.ann_types(ast.parse(a.value, mode="eval").body, mod, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            x, y = self.ann_types(a.left, mod, depth + 1), self.ann_types(a.right, mod, depth + 1)
            return None if x is None or y is None else x | y
        if isinstance(a, (ast.Name, ast.Attribute)):
            v = self.ann_resolve(a, mod)
            if isinstance(v, Cl):
                return frozenset((n, ()) for n in self.expand_class(v.ci.qual))
            if isinstance(v, Ext):
                q = v.q
                if q in ("typing.Any", "builtins.object"):
                    return None
                if q in ("typing.List", "typing.Dict", "typing.Set", "typing.Tuple"):
                    return frozenset([("builtins." + q[7:].lower(), ())])
                if q in ("typing.Callable", "typing_extensions.Callable"):
                    return frozenset([("builtins.function", ())])
                if q.startswith("builtins.") and ext_type(q) is not None or q in NATIVE:
                    return frozenset((n, ()) for n in self.expand_class(q)) if q != "builtins.int" else frozenset(
                        [(q, ())])
                return frozenset([(q, ())]) if not q.startswith("typing") else None
            if isinstance(v, tuple):        # deferred alias
                return self.ann_types(v[0], v[1], depth + 1)
            return None
        if isinstance(a, ast.Subscript):
            v = self.ann_resolve(a.value, mod)
            q = v.q if isinstance(v, Ext) else None
            args = list(a.slice.elts) if isinstance(a.slice, ast.Tuple) else [a.slice]
            if q in ("typing.Union", "typing_extensions.Union"):
                out = frozenset()
                for x in args:
                    t = self.ann_types(x, mod, depth + 1)
                    if t is None:
                        return None
                    out |= t
                return out
            if q == "typing.Optional":
                t = self.ann_types(args[0], mod, depth + 1)
                return None if t is None else t | {("builtins.NoneType", ())}
            if q in ("typing.List", "builtins.list", "typing.Sequence", "typing.Set", "builtins.set", "typing.Iterable"):
                return frozenset([("builtins.set" if q.lower().endswith("set") else "builtins.list",
                                   (self.ann_types(args[0], mod, depth + 1),))])
            if q in ("typing.Dict", "builtins.dict", "typing.Mapping"):
                return frozenset([("builtins.dict", tuple(self.ann_types(x, mod, depth + 1) for x in args[:2]))])
            if q in ("typing.Tuple", "builtins.tuple"):
                return frozenset([("builtins.tuple", tuple(self.ann_types(x, mod, depth + 1) for x in args
                                                            if not isinstance(x, ast.Constant)))])
            if q in ("typing_extensions.Literal", "typing.Literal"):
                out = set()
                for x in args:
                    if isinstance(x, ast.Constant):
                        out.add(("builtins." + type(x.value).__name__, ()))
                return frozenset(out)
            if q in ("typing.Callable",):
                return frozenset([("builtins.function", ())])
            if q in ("typing.Type", "builtins.type"):
                return frozenset([("builtins.type", ())])
        return None

    def ann_resolve(self, a, mod):
        if isinstance(a, ast.Attribute):
            b = self.ann_resolve(a.value, mod)
            if isinstance(b, Md):
                m = self.p.modules.get(b.name)
                if m is not None:
                    v = self.module_ns(m).get(a.attr)
                    if v is not None:
                        return v if not self.is_alias(v) else self.alias_node(a.attr, m)
            if isinstance(b, Ext):
                return Ext(b.q + "." + a.attr)
            return None
        if isinstance(a, ast.Name):
            al = self.alias_node(a.id, mod)
            if al is not None:
                return al
            ns = self.module_ns(mod)
            if a.id in ns:
                return ns[a.id]
            # names imported for type checking only
            for s in ast.walk(mod.tree):
                if isinstance(s, ast.ImportFrom):
                    for x in s.names:
                        if (x.asname or x.name) == a.id:
                            c = [ci for q, ci in self.classes.items() if ci.name == x.name]
                            if len(c) == 1:
                                return Cl(c[0])
                            base = s.module or ""
                            for ci in c:
                                if ci.mod.name.endswith(base):
                                    return Cl(ci)
            import builtins
            if hasattr(builtins, a.id):
                return Ext("builtins." + a.id)
        return None

    def is_alias(self, v):
        return not isinstance(v, (Cl, Ext, Md, Fn))

    def alias_node(self, name, mod):
        """Module-level `Name = Union[...]` definitions."""
        for s in mod.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                    and s.targets[0].id == name and isinstance(s.value, ast.Subscript):
                return (s.value, mod)
        return None

    def field_types(self, qual, name):
        """Types of attribute `name` of exact class qual (atoms) or None."""
        k = (qual, name)
        if k in self._fieldtypes:
            return self._fieldtypes[k]
        self._fieldtypes[k] = None
        ci = self.classes.get(qual)
        r = None
        if ci is not None:
            for c in ci.mro():
                if not isinstance(c, ClassInfo):
                    continue
                if name in c.ann:
                    r = self.ann_types(c.ann[name], c.mod)
                    break
                ini = c.ns.get("__init__")
                if isinstance(ini, Fn):
                    anns = {a.arg: a.annotation for a in ini.node.args.args + ini.node.args.kwonlyargs}
                    hit = None
                    for s in ast.walk(ini.node):
                        tg = None
                        if isinstance(s, ast.Assign) and len(s.targets) == 1:
                            tg = s.targets[0]
                        elif isinstance(s, ast.AnnAssign):
                            tg = s.target
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) \
                                and tg.value.id == "self" and tg.attr == name:
                            if isinstance(s, ast.AnnAssign):
                                hit = ("t", self.ann_types(s.annotation, c.mod))
                            elif isinstance(s.value, ast.Name) and s.value.id in anns:
                                hit = ("t", self.ann_types(anns[s.value.id], c.mod))
                            elif isinstance(s.value, ast.BoolOp) and isinstance(s.value.op, ast.Or) \
                                    and isinstance(s.value.values[0], ast.Name) and s.value.values[0].id in anns:
                                t = self.ann_types(anns[s.value.values[0].id], c.mod)
                                if t is not None:
                                    t = frozenset(x for x in t if x[0] != "builtins.NoneType")
                                hit = ("t", t)
                            else:
                                hit = ("t", None)
                    if hit is not None:
                        r = hit[1]
                        break
        self._fieldtypes[k] = r
        return r

    def elem_types(self, st, v, i=None):
        """Types of the elements of a symbolic container."""
        if not isinstance(v, Sy):
            return None
        f = st.fact(v.t)
        if f.types is None:
            return None
        out = frozenset()
        for n, args in f.types:
            if n == "builtins.NoneType":
                continue
            if n == "builtins.str":
                out |= STR_T
            elif n in ("builtins.list", "builtins.set", "builtins.frozenset") and args and args[0] is not None:
                out |= args[0]
            elif n == "builtins.dict" and len(args) > 1 and args[1] is not None:
                out |= args[1]
            elif n == "builtins.tuple" and isinstance(i, int) and i < len(args) and args[i] is not None:
                out |= args[i]
            elif n == "builtins.tuple" and isinstance(i, K) and type(i.v) is int and i.v < len(args) and args[i.v]:
                out |= args[i.v]
            else:
                return None
        return out or None

    # ------------------------------------------------------------ attribute access
    def getattr_(self, b, name, st, node, fr):
        t = type(b)
        if t is Obj:
            return self.obj_attr(b, name, st, node, fr)
        if t is Sy:
            return self.sym_attr(b, name, st, node, fr)
        if t is Cl:
            return [(st, v) for v in [self.class_attr(b, name, st, node, fr)] if v is not None]
        if t is Md:
            m = self.p.modules.get(b.name)
            if m is not None:
                ns = self.module_ns(m)
                if name in ns:
                    return [(st, ns[name])]
            sub = b.name + "." + name
            if sub in self.p.modules or any(x.startswith(sub + ".") for x in self.p.modules):
                return [(st, self.import_mod(sub))]
            if name == "__name__":
                return [(st, K(b.name))]
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        if t is Ext:
            return [(st, self.ext_const(b.q + "." + name))]
        if t is Sup:
            return self.super_attr(b, name, st, node, fr)
        if t is Prop:
            return [(st, BM(b, name))]
        if t in (Fn, Bm, CMF):
            f = b.f if t is Bm else b
            if name == "__name__" and isinstance(f, Fn):
                return [(st, K(getattr(f.node, "name", "<lambda>")))]
            if name == "__self__" and t is Bm:
                return [(st, b.self_)]
            return [(st, Sy(("attr", b, name)))]
        if t is Ex:
            if name == "args":
                return [(st, Tup(b.args))]
            if b.q.endswith("StopIteration") and name == "value":
                return [(st, NONE_)]
            return [(st, Sy(("attr", b, name)))]
        if t is K and b.v is None:
            if name == "__class__":
                return [(st, Ext("builtins.NoneType"))]
            self.rx(st, "AttributeError", node, fr, K("'NoneType' object has no attribute '%s'" % name))
            return []
        if t is K and not hasattr(b.v, name):
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        if t in (Top,):
            return [(st, Top(b.why))]
        if t is Part and isinstance(b.f, Ext) and b.f.q == "functools.partial":
            if name == "func":
                return [(st, b.f)]
        return [(st, BM(b, name))]

    def bind_class_value(self, v, recv, ci, st, node, fr):
        """Apply the descriptor protocol; [(st, value)]."""
        if isinstance(v, (Fn, CMF)):
            return [(st, Bm(recv, v))]
        if isinstance(v, Prop):
            return self.call(v.f, [recv], [], st, node, fr)
        if isinstance(v, SM):
            return [(st, v.f)]
        if isinstance(v, CM):
            return [(st, Bm(Cl(ci), v.f))]
        return [(st, v)]

    def obj_attr(self, b, name, st, node, fr):
        r = self.rec(st, b.a)
        if not isinstance(r, Inst):
            return [(st, BM(b, name))]
        ci = r.ci
        if ci is None:
            if name in r.f:
                return [(st, r.f[name])]
            return [(st, Sy(("attr", b, name)))]
        own, cv = ci.lookup(name)
        if isinstance(cv, Prop):
            return self.call(cv.f, [b], [], st, node, fr)
        if name in r.f:
            v = r.f[name]
            if isinstance(v, Sy) and isinstance(v.t, tuple) and v.t and v.t[0] == "kwarg" and False:
                pass
            return [(st, v)]
        if name == "__class__":
            return [(st, Cl(ci))]
        if name == "__dict__":
            return [(st, Part(Ext("builtins.vars"), (b,), ()))]
        if name == "__name__":
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        if own is not None:
            if isinstance(cv, Part) and isinstance(cv.f, Ext) and cv.f.q in ("attr.ib", "attr.field", "dataclasses.field"):
                self.rx(st, "AttributeError", node, fr, K(name))
                return []
            return self.bind_class_value(cv, b, ci, st, node, fr)
        if "%org" in r.f and isinstance(r.f["%org"], Sy):
            return self.sym_attr(r.f["%org"], name, st, node, fr)
        eb = [x for x in ci.ext_bases() if x != "builtins.object"]
        for q in eb:
            if q == "?unknown":
                return [(st, BM(b, name))]
            ty = ext_type(q)
            if ty is None or hasattr(ty, name):
                return [(st, BM(b, name))]
        if hasattr(object, name):
            return [(st, BM(b, name))]
        own, ga = ci.lookup("__getattr__")
        if ga is not None:
            return self.call(ga, [b, K(name)], [], st, node, fr)
        self.rx(st, "AttributeError", node, fr, K("%s object has no attribute %s" % (ci.name, name)))
        return []

    def class_attr(self, b, name, st, node, fr):
        ci = b.ci
        if name in ("__name__", "__qualname__"):
            return K(ci.name)
        if name == "__module__":
            return K(ci.mod.name)
        if name == "__mro__":
            return Tup(tuple(Cl(c) if isinstance(c, ClassInfo) else Ext(c) for c in ci.mro()))
        if name == "__dict__":
            return Part(Ext("builtins.vars"), (b,), ())
        own, v = ci.lookup(name)
        if v is None:
            if any(x != "builtins.object" for x in ci.ext_bases()) or hasattr(object, name):
                return BM(b, name)
            self.rx(st, "AttributeError", node, fr, K(name))
            return None
        if isinstance(v, SM):
            return v.f
        if isinstance(v, CM):
            return Bm(b, v.f)
        return v

    def super_attr(self, b, name, st, node, fr):
        sv = b.self_
        ci = None
        if isinstance(sv, Obj):
            r = self.rec(st, sv.a)
            ci = r.ci if isinstance(r, Inst) else None
        elif isinstance(sv, Cl):
            ci = sv.ci
        elif isinstance(sv, Sy):
            f = st.fact(sv.t).types
            if f is not None and len(f) == 1:
                ci = self.classes.get(next(iter(f))[0])
        mro = (ci or b.ci).mro()
        start = mro.index(b.ci) + 1 if b.ci in mro else 1
        for c in mro[start:]:
            if isinstance(c, ClassInfo):
                if name in c.ns:
                    v = c.ns[name]
                    if name == "__new__":
                        return [(st, v.f if isinstance(v, SM) else v)]
                    if isinstance(sv, Cl) and isinstance(v, Fn):
                        return [(st, v)]
                    return self.bind_class_value(v, sv, ci or b.ci, st, node, fr)
                if c.attrs and name == "__init__":
                    return [(st, BM(b, "%attrs"))]
            elif c not in ("builtins.object",):
                return [(st, BM(Sup(b.ci, sv), name))]
        return [(st, BM(Sup(b.ci, sv), "%object." + name))]

    def sym_attr(self, b, name, st, node, fr):
        f = st.fact(b.t)
        if f.const is not None:
            return self.getattr_(f.const, name, st, node, fr)
        ov = st.heap.get(b)
        if isinstance(ov, Inst) and name in ov.f:
            return [(st, ov.f[name])]
        if name == "__class__":
            return [(st, Sy(("type", b)))]
        if name == "__dict__":
            return [(st, Part(Ext("builtins.vars"), (b,), ()))]
        types = f.types
        t = ("a", b, name)
        if types is None:
            return [(st, Sy(t))]
        out = []
        none = [x for x in types if x[0] == "builtins.NoneType"]
        if none:
            y = st.fork()
            y.facts[b.t] = f.with_(types=frozenset(none))
            if not hasattr(None, name):
                self.rx(y, "AttributeError", node, fr, K("'NoneType' object has no attribute '%s'" % name))
            types = types - frozenset(none)
            if not types:
                return []
            f = f.with_(types=types, neg=f.neg | {"builtins.NoneType"})
            st.facts[b.t] = f
        # group the classes by what the attribute is
        groups = {}
        for a in types:
            ci = self.classes.get(a[0])
            if ci is None:
                ty = ext_type(a[0]) if a[0] in NATIVE or a[0].startswith("builtins.") else None
                if ty is not None:
                    k = ("native",) if hasattr(ty, name) else ("missing",)
                else:
                    k = ("ext",)
            else:
                own, cv = ci.lookup(name)
                if isinstance(cv, (Fn, Prop, SM, CM, CMF)):
                    k = ("cls", cv)
                elif self.field_declared(a[0], name):
                    k = ("field",)
                elif cv is not None:
                    k = ("cval", cv)
                elif any(x != "builtins.object" for x in ci.ext_bases()):
                    k = ("native",)
                elif hasattr(object, name):
                    k = ("native",)
                else:
                    k = ("missing",)
            groups.setdefault(k, []).append(a)
        items = sorted(groups.items(), key=lambda kv: repr(kv[0]))
        for n, (k, ats) in enumerate(items):
            x = st.fork() if n < len(items) - 1 else st
            if len(items) > 1:
                x.facts[b.t] = f.with_(types=frozenset(ats))
            if k[0] == "missing":
                self.rx(x, "AttributeError", node, fr, K("no attribute %s" % name))
            elif k[0] == "native":
                out.append((x, Sy(t) if all(self.native_data(a[0], name) for a in ats) else BM(b, name)))
            elif k[0] == "cls":
                ci = self.classes[ats[0][0]]
                out.extend(self.bind_class_value(k[1], b, ci, x, node, fr))
            elif k[0] == "cval":
                out.append((x, k[1]))
            elif k[0] == "field":
                ty = frozenset()
                for a in ats:
                    ft = self.field_types(a[0], name)
                    if ft is None:
                        ty = None
                        break
                    ty |= ft
                if ty is not None and t not in x.facts:
                    x.facts[t] = Fact(ty)
                elif ty is not None:
                    g = x.facts[t]
                    if g.types is None:
                        x.facts[t] = g.with_(types=ty)
                out.append((x, Sy(t)))
            else:
                out.append((x, BM(b, name)))
        return out

    def native_data(self, qual, name):
        """Is the attribute of the library type data, not a method?"""
        import types
        ci = self.classes.get(qual)
        for q in [qual] if ci is None else ci.ext_bases():
            ty = ext_type(q)
            for c in getattr(ty, "__mro__", ()):
                d = vars(c).get(name)
                if d is not None:
                    return isinstance(d, (types.GetSetDescriptorType, types.MemberDescriptorType, property))
        return False

    def field_declared(self, qual, name):
        ci = self.classes.get(qual)
        for c in ci.mro():
            if not isinstance(c, ClassInfo):
                continue
            if name in c.ann:
                return True
            for s in ast.walk(c.node):
                if isinstance(s, ast.Attribute) and s.attr == name and isinstance(s.ctx, ast.Store) \
                        and isinstance(s.value, ast.Name):
                    return True
        return False

    def set_dict(self, b, v, st, node, fr):
        """b.__dict__ = v"""
        r = self.rec(st, b.a)
        if isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q == "builtins.vars":
            it = self.vars_items(v.args[0], st)
            if it is not None:
                # one dictionary for both from now on
                st.heap[b.a] = Inst(r.ci, dict(it, **{"%dictof": v.args[0]}), r.many, r.nt)
                return True
        d = self.rec(st, v.a) if isinstance(v, Obj) else None
        if isinstance(d, DRec) and d.rest is None and d.org is None and all(isinstance(k, K) for k, _ in d.items):
            st.heap[b.a] = Inst(r.ci, {k.v: x for k, x in d.items}, r.many, r.nt)
            return True
        return False

    def setattr_(self, b, name, v, st, node, fr):
        if name == "__dict__" and isinstance(b, Obj) and isinstance(self.rec(st, b.a), Inst) \
                and self.set_dict(b, v, st, node, fr):
            return [st]
        if isinstance(b, Obj) and isinstance(st.heap.get(b.a), Inst) and "%dictof" in st.heap[b.a].f:
            return [y for x in self.setattr_(st.heap[b.a].f["%dictof"], name, v, st, node, fr)
                    for y in self.setattr_1(b, name, v, x, node, fr)]
        return self.setattr_1(b, name, v, st, node, fr)

    def setattr_1(self, b, name, v, st, node, fr):
        self.emit("on_setattr", st, b, name, v, node, fr)
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, Inst):
                if r.ci is not None:
                    own, cv = r.ci.lookup(name)
                    if isinstance(cv, Prop):
                        return [st]
                if r.many:
                    old = r.f.get(name)
                    if old is not None and old != v:
                        from .join import merge_vals
                        v = merge_vals(st, old, v, (b.a, name))
                        r = self.rec(st, b.a)
                    st.heap[b.a] = r.set(name, v)
                    return [st]
                if b.a not in st.heap:
                    self.emit("on_static_write", st, b, name, v, node, fr)
                st.heap[b.a] = r.set(name, v)
                org = r.f.get("%org")
                if isinstance(org, Obj) and org.a in st.heap:
                    ro = st.heap[org.a]
                    old = ro.f.get(name)
                    if old is not None and old != v:
                        from .join import merge_vals
                        w = merge_vals(st, old, v, (org.a, name))
                    else:
                        w = v
                    if isinstance(st.heap.get(org.a), Inst):
                        st.heap[org.a] = st.heap[org.a].set(name, w)
                return [st]
            return [st]
        if isinstance(b, Sy):
            ov = st.heap.get(b)
            if not isinstance(ov, Inst):
                ov = Inst(None, {})
            st.heap[b] = ov.set(name, v)
            t = ("a", b, name)
            st.drop_facts(lambda x: x == t)
            return [st]
        if isinstance(b, Cl):
            self.emit("on_static_write", st, b, name, v, node, fr)
            if self.evaluating_static:
                b.ci.ns[name] = v
            return [st]
        if isinstance(b, (Md, Ext, Fn)):
            self.emit("on_static_write", st, b, name, v, node, fr)
            return [st]
        if isinstance(b, K):
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        return [st]

    def delattr_(self, b, name, st, node, fr):
        self.emit("on_delattr", st, b, name, node, fr)
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, Inst):
                if name not in r.f:
                    self.rx(st, "AttributeError", node, fr, K(name))
                    return []
                st.heap[b.a] = r.drop(name)
        return [st]

    # ------------------------------------------------------------ containers
    def dict_put(self, d, k, v, st, comp=False):
        if isinstance(k, Sy):
            c = st.fact(k.t).const
            if isinstance(c, K):
                k = c
        if isinstance(k, K) or d.get(k) is not None:
            # an unknown key already present may alias
            items = d.items
            if isinstance(k, K) and any(not isinstance(x, K) for x, _ in items):
                items = tuple((x, (w if isinstance(x, K) else w)) for x, w in items)
            return DRec(items, d.rest, d.org, d.restk).set(k, v)
        if isinstance(k, (Sy,)) and not comp and not d.items and d.rest is None and d.org is None:
            return d.set(k, v)
        rest = frozenset(d.rest or ()) | {v}
        if isinstance(k, (St, Ch)):
            kk = strs.mk(strs.debrick(strs.atoms_of(k, st), st))
        else:
            kk = k
        # an unknown key may overwrite any known one
        items = tuple((x, w) for x, w in d.items)
        return DRec(items, rest, d.org, d.restk | {kk})

    def dict_update(self, d, v, st):
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, DRec):
                for k, x in r.items:
                    d = self.dict_put(d, k, x, st)
                if r.rest is not None or r.org is not None:
                    d = DRec(d.items, frozenset(d.rest or ()) | (r.rest or frozenset()), d.org or r.org,
                             d.restk | r.restk)
                return d
        if isinstance(v, Part) and isinstance(v.f, Ext) and v.f.q == "builtins.vars":
            o = v.args[0]
            if isinstance(o, Obj):
                r = self.rec(st, o.a)
                if isinstance(r, Inst):
                    for n, x in r.f.items():
                        if not n.startswith("%"):
                            d = d.set(K(n), x)
                    return d
            it = self.vars_items(o, st)
            if it is not None:
                for n, x in it:
                    d = d.set(K(n), x)
                return d
        if isinstance(v, K) and v.v is None:
            return d
        return DRec(d.items, frozenset(d.rest or ()), d.org if d.org is not None else ("upd", v), d.restk)

    def list_append(self, o, v, st, node, fr, silent=False, comp=False):
        r = self.rec(st, o.a)
        if not silent:
            self.emit("on_elem", st, o, v, node, fr)
            if not comp:
                self.emit("on_append", st, o, v, node, fr)
        tail = r.tail + (v,)
        st.heap[o.a] = LRec(r.pre, tail, r.pairs, r.plast, r.org, r.pmin)
        return st

    def list_extend(self, o, v, st, node, fr):
        items = self.seq_items(v, st)
        if items is not None:
            for x in items:
                self.list_append(o, x, st, node, fr)
            return st
        r = self.rec(st, o.a)
        pre = dict(r.pre)
        for x in r.tail:
            pre[x] = 2
        pmin = 1 if r.minlen() else 0
        tags = set()
        if isinstance(v, Obj) and isinstance(self.rec(st, v.a), LRec):
            r2 = self.rec(st, v.a)
            for x in r2.elems():
                pre[x] = 2
                self.emit("on_elem", st, o, x, node, fr)
            pmin = max(pmin, 1 if r2.minlen() else 0)
        else:
            w = Sy(("elem", v))
            ty = self.elem_types(st, v)
            if ty is not None:
                st.facts.setdefault(w.t, Fact(ty))
            pre[w] = 2
            self.emit("on_elem", st, o, w, node, fr)
        from .join import tag_of
        tags = {tag_of(st, x) for x in pre}
        st.heap[o.a] = LRec(frozenset(pre.items()), (), frozenset((a, b) for a in tags for b in tags),
                            frozenset(tags), r.org, pmin)
        return st

    def list_extend_states(self, o, v, st, node, fr):
        if isinstance(v, Gen):
            out = []

            def body(y, el):
                self.list_append(o, el, y, node, fr)
                return [(NEXT, y, None)]
            for oc in self.iterate(v, st, fr, node, body):
                if oc[0] in (NEXT, BRK):
                    out.append(oc[1])
                elif oc[0] == EXC:
                    self.excs[-1].append((oc[1], oc[2]))
            return out
        if isinstance(v, (St, Ch, Src, Part)):
            r = self.rec(st, o.a)
            if isinstance(v, Ch):
                self.list_append(o, v, st, node, fr)
                return [st]
            w = self.typed(st, ("elem", v), "builtins.str") if is_str(v) else Sy(("elem", v))
            pre = dict(r.pre)
            for x in r.tail + (w,):
                pre[x] = 2
            st.heap[o.a] = LRec(frozenset(pre.items()), (), r.pairs, r.plast | {"?"}, r.org, r.pmin)
            return [st]
        if isinstance(v, K) and not isinstance(v.v, (str, tuple)):
            self.rx(st, "TypeError", node, fr, K("not iterable"))
            return []
        self.list_extend(o, v, st, node, fr)
        return [st]

    def set_add(self, o, v, st):
        r = self.rec(st, o.a)
        if isinstance(v, (St, Ch)):
            v = strs.mk(strs.debrick(strs.atoms_of(v, st), st))
            st.heap[o.a] = SRec(r.items, frozenset(r.rest or ()) | {v}, r.org, r.froz, True)
        else:
            st.heap[o.a] = SRec(r.items | {v}, r.rest, r.org, r.froz, True)

    # ------------------------------------------------------------ iteration
    def iterate(self, itv, st, fr, node, body):
        """Outcomes of a for loop; NEXT: exhausted, BRK: left by break."""
        t = type(itv)
        if self.exact:
            s = self.lazy(itv, st)
            if s is not None:
                return self.exact_for(s, st, fr, node, body)
        if t is Gen:
            return self.run_generator(itv, st, fr, node, body)
        if t is Tup:
            return self.unroll(list(itv.items), st, body)
        if t is K:
            if isinstance(itv.v, (str, tuple, range, list)):
                if len(itv.v) <= 64:
                    return self.unroll([K(c) for c in itv.v], st, body)
                return self.generic_loop(st, fr, node, body, lambda x: [(x, Top("element"))], 1)
            self.excs[-1].append((st, Ex("builtins.TypeError", (K("not iterable"),))))
            return []
        if t is Ch:
            return self.unroll([itv], st, body)
        if t in (St, Src):
            def el(x):
                items = strs.debrick(strs.atoms_of(itv, x), x)
                cs = strs.all_cs(items)
                if cs is None:
                    return [(x, self.typed(x, ("e", itv, node._id), "builtins.str"))]
                if not cs:
                    return []
                return [(x, strs.mk((("b", cs, 1, 1),)))]
            return self.generic_loop(st, fr, node, body, el, 1 if strs.nonempty(itv, st) else 0)
        if t is Obj:
            return self.iterate_obj(itv, st, fr, node, body)
        if t is Part and isinstance(itv.f, Ext):
            r = self.iterate_part(itv, st, fr, node, body)
            if r is not None:
                return r
        if t is Sy:
            return self.iterate_sym(itv, st, fr, node, body)
        if t is Top or t is BM:
            return self.generic_loop(st, fr, node, body, lambda x: [(x, Top("element"))], 0)
        if t in (Fn, Bm, Cl, Ext, Md):
            self.excs[-1].append((st, Ex("builtins.TypeError", (K("not iterable"),))))
            return []
        return self.generic_loop(st, fr, node, body, lambda x: [(x, Sy(("e", itv, node._id)))], 0)

    def unroll(self, items, st, body):
        cur = [st]
        res = []
        for v in items:
            nx = []
            for x in cur:
                self.excs.append([])
                outs = body(x, v)
                for y, w in self.excs.pop():
                    res.append((EXC, y, w))
                for o in outs:
                    if o[0] in (NEXT, CNT):
                        nx.append(o[1])
                    else:
                        res.append(o)
            cur = self.compact(nx)
        res.extend((NEXT, x, None) for x in cur)
        return res

    def generic_loop(self, st, fr, node, body, elems, minlen, back=None):
        """elems(state) -> [(state, element)]; zero iterations possible unless minlen."""
        mark = "%it" + node._id
        st.frames.setdefault(fr.fid, {})
        if minlen:
            st.frames[fr.fid][mark] = FALSE

        def step(x):
            outs = []
            if x.frames[fr.fid].get(mark) != FALSE:
                e = x.fork()
                e.frames[fr.fid].pop(mark, None)
                outs.append((NEXT, e, None))
            x.frames[fr.fid].pop(mark, None)
            for y, el in elems(x.fork()):
                for o in body(y, el):
                    if o[0] in (NEXT, CNT):
                        if back is not None:
                            back(o[1])
                        outs.append((CNT, o[1], None))
                    else:
                        outs.append(o)
            return outs
        self.excs.append([])
        outs = self.fix(node, fr, [st], step)
        self.excs[-2].extend(self.excs.pop())
        return outs

    def iterate_obj(self, itv, st, fr, node, body):
        r = self.rec(st, itv.a)
        if isinstance(r, LRec):
            if r.exact() and len(r.tail) <= 12:
                return self.unroll(list(r.tail), st, body)

            def el(x):
                rr = self.rec(x, itv.a)
                if not isinstance(rr, LRec):
                    rr = r
                vals = [v for v, _ in rr.pre] + list(rr.tail)
                if rr.org is not None:
                    vals.append(Sy(("e", rr.org, node._id)))
                return self.choose(vals, x, fr, node) if vals else []
            return self.generic_loop(st, fr, node, body, el, 1 if r.minlen() else 0)
        if isinstance(r, DRec):
            if r.rest is None and r.org is None and len(r.items) <= 16:
                return self.unroll([k for k, _ in r.items], st, body)
            return self.generic_loop(st, fr, node, body, lambda x: self.dict_elems(itv, x, node, fr, "keys"),
                                     1 if r.items else 0)
        if isinstance(r, SRec):
            if r.rest is None and r.org is None and len(r.items) <= 12:
                return self.unroll(sorted(r.items, key=repr), st, body)

            def els(x):
                rr = self.rec(x, itv.a)
                vals = list(rr.items) + list(rr.rest or ())
                return self.choose(vals, x, fr, node) if vals else [(x, Sy(("e", itv, node._id)))]
            return self.generic_loop(st, fr, node, body, els, 0)
        if isinstance(r, Inst) and r.ci is not None:
            if r.ci.lookup("__iter__")[1] is not None:
                outs = []
                self.excs.append([])
                its = self.callmethod(itv, "__iter__", [], st, node, fr)
                outs.extend((EXC, x, v) for x, v in self.excs.pop())
                for x, it in its:
                    outs.extend(self.iterate(it, x, fr, node, body) if it != itv else [(NEXT, x, None)])
                return outs
            if not any(x != "builtins.object" for x in r.ci.ext_bases()):
                self.excs[-1].append((st, Ex("builtins.TypeError", (K("not iterable"),))))
                return []
        return self.generic_loop(st, fr, node, body, lambda x: [(x, Sy(("e", itv, node._id)))], 0)

    def dict_elems(self, d, x, node, fr, what):
        r = self.rec(x, d.a) if isinstance(d, Obj) else x.heap.get(d)
        out = []
        pairs = []
        if isinstance(r, DRec):
            pairs = list(r.items)
            for v in (r.rest or ()):
                for k in (r.restk or [Sy(("key", d, node._id))]):
                    pairs.append((k, v))
        if not isinstance(r, DRec) or r.org is not None or not pairs:
            base = r.org if isinstance(r, DRec) and r.org is not None else d
            k = Sy(("e", ("k", base), node._id))
            v = Sy(("e", ("v", base), node._id))
            if isinstance(d, Sy):
                f = x.fact(d.t)
                for a in (f.types or ()):
                    if a[0] == "builtins.dict" and len(a[1]) == 2:
                        if a[1][0] is not None:
                            x.facts.setdefault(k.t, Fact(a[1][0]))
                        if a[1][1] is not None:
                            x.facts.setdefault(v.t, Fact(a[1][1]))
            pairs.append((k, v))
        for n, (k, v) in enumerate(pairs):
            y = x.fork()
            if what == "keys":
                e = k
            elif what == "values":
                e = self.materialize(v, y, fr, node)
            else:
                e = Tup((k, self.materialize(v, y, fr, node)))
            out.append((y, e))
        return out

    def iterate_part(self, p, st, fr, node, body):
        q = p.f.q
        if q == "builtins.range":
            a = [as_lin(x) for x in p.args]
            lo, hi, stp = (lin(0), a[0], lin(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else lin(1))
            if lo is not None and hi is not None and stp is not None and not lo.t and not hi.t and not stp.t:
                rg = range(lo.c, hi.c, stp.c or 1)
                if len(rg) <= 12:
                    return self.unroll([K(i) for i in rg], st, body)

            def el(x):
                s = symlin(fresh("r"))
                if stp is not None and not stp.t and stp.c > 0:
                    if lo is not None:
                        x.assume(s - lo)
                    if hi is not None and not x.assume(hi - s - 1):
                        return []
                return [(x, I(s))]
            return self.generic_loop(st, fr, node, body, el, 0)
        if q == "builtins.enumerate":
            n = [0]
            items = self.seq_items(p.args[0], st)
            if items is not None and len(items) <= 12:
                return self.unroll([Tup((K(i), v)) for i, v in enumerate(items)], st, body)

            def b2(x, v):
                s = symlin(fresh("r"))
                x.assume(s)
                return body(x, Tup((I(s), v)))
            return self.iterate(p.args[0], st, fr, node, b2)
        if q == "builtins.zip":
            seqs = [self.seq_items(a, st) for a in p.args]
            if all(s is not None for s in seqs) and seqs:
                return self.unroll([Tup(tuple(x)) for x in zip(*seqs)], st, body)

            def el(x):
                vs = []
                for n, a in enumerate(p.args):
                    vs.append(self.some_element(a, x, node, fr, n))
                return [(x, Tup(tuple(vs)))]

            def back(x):
                for n, a in enumerate(p.args):
                    if isinstance(a, Sy):
                        self.rotate(x, ("e", a.t, node._id + ".%d" % n))
            return self.generic_loop(st, fr, node, body, el, 0, back)
        if q in ("builtins.reversed", "builtins.iter", "builtins.list.copy"):
            items = self.seq_items(p.args[0], st)
            if items is not None:
                return self.unroll(items[::-1] if q.endswith("reversed") else items, st, body)
            return self.iterate(p.args[0], st, fr, node, body)
        if q == "builtins.map":
            def b3(x, v):
                outs = []
                for y, w in self.call(p.args[0], [v], [], x, node, fr):
                    outs.extend(body(y, w))
                return outs
            return self.iterate(p.args[1], st, fr, node, b3)
        if q == "builtins.filter":
            def b4(x, v):
                outs = []
                rs = self.call(p.args[0], [v], [], x, node, fr) if p.args[0] != NONE_ else [(x, v)]
                for y, w in rs:
                    for z, tt in self.truth(w, y):
                        outs.extend(body(z, v) if tt else [(NEXT, z, None)])
                return outs
            return self.iterate(p.args[1], st, fr, node, b4)
        if q in ("builtins.dict.items", "builtins.dict.keys", "builtins.dict.values"):
            d = p.args[0]
            what = q.rsplit(".", 1)[1]
            if isinstance(d, Part) and isinstance(d.f, Ext) and d.f.q == "builtins.vars":
                return self.iterate_vars(d.args[0], what, st, fr, node, body)
            r = self.rec(st, d.a) if isinstance(d, Obj) else None
            if isinstance(r, DRec) and r.rest is None and r.org is None and len(r.items) <= 16:
                return self.unroll([k if what == "keys" else v if what == "values" else Tup((k, v))
                                    for k, v in r.items], st, body)

            def back(x):
                base = d.t if isinstance(d, Sy) else d
                self.rotate(x, ("e", ("k", d), node._id))
                self.rotate(x, ("e", ("v", d), node._id))
            return self.generic_loop(st, fr, node, body, lambda x: self.dict_elems(d, x, node, fr, what),
                                     1 if isinstance(r, DRec) and r.items else 0, back)
        if q == "builtins.vars":
            return self.iterate_vars(p.args[0], "keys", st, fr, node, body)
        return None

    def iterate_vars(self, o, what, st, fr, node, body):
        if isinstance(o, Obj):
            r = self.rec(st, o.a)
            if isinstance(r, Inst) and not r.many and "%org" not in r.f:
                its = [(K(n), v) for n, v in r.f.items() if not n.startswith("%")]
                return self.unroll([k if what == "keys" else v if what == "values" else Tup((k, v))
                                    for k, v in its], st, body)

        def el(x):
            k = self.typed(x, ("e", ("k", ("vars", o)), node._id), "builtins.str")
            v = Sy(("e", ("v", ("vars", o)), node._id))
            return [(x, k if what == "keys" else v if what == "values" else Tup((k, v)))]

        def back(x):
            self.rotate(x, ("e", ("k", ("vars", o)), node._id))
            self.rotate(x, ("e", ("v", ("vars", o)), node._id))
        return self.generic_loop(st, fr, node, body, el, 0, back)

    def some_element(self, a, x, node, fr, n):
        if isinstance(a, Sy):
            t = ("e", a.t, node._id + ".%d" % n)
            ty = self.elem_types(x, a)
            if ty is not None:
                x.facts.setdefault(t, Fact(ty))
            return Sy(t)
        if isinstance(a, Obj):
            r = self.rec(x, a.a)
            if isinstance(r, LRec) and len(r.elems()) == 1:
                return self.materialize(r.elems()[0], x, fr, node)
        return Sy(("e", a, node._id + ".%d" % n))

    def iterate_sym(self, v, st, fr, node, body):
        f = st.fact(v.t)
        if f.const is not None:
            return self.iterate(f.const, st, fr, node, body)
        if f.types is not None:
            bad = frozenset(t for t in f.types if t[0] in ("builtins.NoneType", "builtins.int", "builtins.bool",
                                                            "builtins.float"))
            if bad:
                y = st.fork()
                y.facts[v.t] = f.with_(types=bad)
                self.excs[-1].append((y, Ex("builtins.TypeError", (K("not iterable"),))))
                rest = f.types - bad
                if not rest:
                    return []
                f = f.with_(types=rest)
                st.facts[v.t] = f
            if f.types and all(t[0] == "builtins.dict" for t in f.types):
                return self.iterate_part(Part(Ext("builtins.dict.keys"), (v,), ()), st, fr, node, body)
        t = ("e", v.t, node._id)

        def el(x):
            ty = self.elem_types(x, v)
            x.facts.pop(t, None)
            if ty is not None:
                x.facts[t] = Fact(ty)
            self.emit("on_sym_elem", x, v, Sy(t), node, fr)
            return [(x, Sy(t))]
        return self.generic_loop(st, fr, node, body, el, 1 if f.truth else 0, lambda x: self.rotate(x, t))

    def rotate(self, x, t):
        """The current element becomes one of the previous ones."""
        pv = ("prev",) + t[1:]
        used_old = self.term_used(x, pv)
        ft, fp = x.facts.get(t), x.facts.get(pv)
        rel = {k: v for k, v in x.facts.items() if k != t and contains(k, t)}
        relp = {k: v for k, v in x.facts.items() if k != pv and contains(k, pv)}
        ov = x.heap.get(Sy(pv))
        x.subst_sy(t, pv)
        if used_old:
            from .interp import join_fact
            j = join_fact(ft or NOFACT, fp or NOFACT)
            if j == NOFACT:
                x.facts.pop(pv, None)
            else:
                x.facts[pv] = j
            if isinstance(ov, Inst):
                nv = x.heap.get(Sy(pv))
                f = {}
                for n in set(ov.f) | set(nv.f if isinstance(nv, Inst) else ()):
                    a = ov.f.get(n)
                    b = nv.f.get(n) if isinstance(nv, Inst) else None
                    f[n] = a if a == b else Top("prev")
                x.heap[Sy(pv)] = Inst(None, f)
        if ("e",) and any(contains(k, pv) for k in x.facts):
            # facts relating previous elements hold for the last one only
            for k in list(x.facts):
                if k != pv and contains(k, pv) and used_old:
                    del x.facts[k]
            if used_old:
                from .interp import join_fact
                for k, f in rel.items():
                    k2 = subst_term(k, t, pv)
                    g = relp.get(k2)
                    if g is not None:
                        j = join_fact(f, g)
                        if j != NOFACT:
                            x.facts[k2] = j

    def term_used(self, x, t):
        for d in x.frames.values():
            for v in d.values():
                if vcontains(v, t):
                    return True
        for a, r in x.heap.items():
            if isinstance(a, Sy) and contains(a.t, t):
                return True
            for v in rec_values(r):
                if vcontains(v, t):
                    return True
        for g in x.ghost.values():
            if contains(g, t):
                return True
        return False


def vcontains(v, t):
    return contains(v, t)


def contains(x, t):
    if x == t:
        return True
    if isinstance(x, (tuple, frozenset)):
        return any(contains(y, t) for y in x)
    if isinstance(x, K):
        return False
    if isinstance(x, V):
        for f in x.fields:
            y = getattr(x, f)
            if isinstance(y, (tuple, frozenset, V)) and contains(y, t):
                return True
    return False
