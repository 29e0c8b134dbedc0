"""C11-C14: the operations on syntax trees, interpreted on every small shape of every node class with symbolic leaves."""
import os

from sa.interp import Interp
from sa.project import AnalysisBroken, Module, Project
from sa.state import DRec, Fact, Inst, LRec
from sa.values import *  # noqa

from .engine_run import RootNode, new_root
from .report import Report

AST = "fluent.syntax.ast"
VIS = "fluent.syntax.visitor"
HERE = os.path.dirname(os.path.abspath(__file__))
STR = frozenset([("builtins.str", ())])

INLINE = ["StringLiteral", "NumberLiteral", "FunctionReference", "MessageReference", "TermReference",
          "VariableReference", "Placeable"]


class S:            # a str leaf
    pass


class N:            # an int leaf
    pass


class B:            # a bool leaf
    pass


class L:
    def __init__(self, *alts):
        self.alts = alts


class Opt:
    def __init__(self, *alts):
        self.alts = alts


class One:
    def __init__(self, *alts):
        self.alts = alts


# the Fluent syntax tree (fields in constructor order; every node except Span also has a span)
SPEC = {
    "Resource": {"body": L("Message", "Term", "Comment", "GroupComment", "ResourceComment", "Junk")},
    "Message": {"id": One("Identifier"), "value": Opt("Pattern"), "attributes": L("Attribute"), "comment": Opt("Comment")},
    "Term": {"id": One("Identifier"), "value": One("Pattern"), "attributes": L("Attribute"), "comment": Opt("Comment")},
    "Pattern": {"elements": L("TextElement", "Placeable")},
    "TextElement": {"value": S},
    "Placeable": {"expression": One(*INLINE, "SelectExpression")},
    "StringLiteral": {"value": S},
    "NumberLiteral": {"value": S},
    "MessageReference": {"id": One("Identifier"), "attribute": Opt("Identifier")},
    "TermReference": {"id": One("Identifier"), "attribute": Opt("Identifier"), "arguments": Opt("CallArguments")},
    "VariableReference": {"id": One("Identifier")},
    "FunctionReference": {"id": One("Identifier"), "arguments": One("CallArguments")},
    "SelectExpression": {"selector": One(*INLINE[:-1]), "variants": L("Variant")},
    "CallArguments": {"positional": L(*INLINE), "named": L("NamedArgument")},
    "Attribute": {"id": One("Identifier"), "value": One("Pattern")},
    "Variant": {"key": One("Identifier", "NumberLiteral"), "value": One("Pattern"), "default": B},
    "NamedArgument": {"name": One("Identifier"), "value": One("StringLiteral", "NumberLiteral")},
    "Identifier": {"name": S},
    "Comment": {"content": S},
    "GroupComment": {"content": S},
    "ResourceComment": {"content": S},
    "Junk": {"content": S, "annotations": L("Annotation")},
    "Span": {"start": N, "end": N},
    "Annotation": {"code": S, "arguments": L(S), "message": S},
}
MAYNONE = {("Comment", "content"), ("GroupComment", "content"), ("ResourceComment", "content"), ("Junk", "content"),
           ("Annotation", "message")}


class T:
    """A tree to build: class name and fields; leaves are V values."""

    def __init__(self, cls, **f):
        self.cls = cls
        self.f = f

    def nodes(self):
        yield self
        for v in self.f.values():
            for x in (v if isinstance(v, list) else [v]):
                if isinstance(x, T):
                    yield from x.nodes()

    def key(self):
        return (self.cls, tuple((k, tuple(y.key() if isinstance(y, T) else y for y in v) if isinstance(v, list) else
                                 v.key() if isinstance(v, T) else v) for k, v in self.f.items()))

    def show(self):
        out = []
        for k, v in self.f.items():
            if k == "span" and v == NONE_:
                continue
            if isinstance(v, list):
                out.append("%s=[%s]" % (k, ",".join(x.cls if isinstance(x, T) else "." for x in v)))
            elif isinstance(v, T):
                out.append("%s=%s" % (k, v.cls))
            elif v == NONE_:
                out.append(k + "=None")
            elif isinstance(v, K):
                out.append("%s=%r" % (k, v.v))
        return "%s(%s)" % (self.cls, ", ".join(out))


class Shapes:
    """Trees with numbered symbolic leaves."""

    def __init__(self):
        self.n = 0

    def leaf(self, kind):
        self.n += 1
        if kind is N:
            return K(self.n)
        if kind is B:
            return FALSE_
        return Sy(("in", "s%d" % self.n))

    def mk(self, cls, depth, over=None, span=False, small=False):
        """small: only what is required; over: field -> value"""
        f = {}
        for k, ty in SPEC[cls].items():
            if over and k in over:
                f[k] = over[k]
            elif ty in (S, N, B):
                f[k] = self.leaf(ty)
            elif isinstance(ty, L):
                f[k] = [] if small or depth <= 0 else [self.item(a, depth) for a in (ty.alts * 2)[:2]]
                if k in ("elements", "variants") and not f[k]:
                    f[k] = [self.item(ty.alts[0], depth)]
            elif isinstance(ty, Opt):
                f[k] = NONE_ if small or depth <= 0 else self.mk(ty.alts[0], depth - 1, small=True)
            else:
                f[k] = self.mk(ty.alts[0], depth - 1, small=True)
        if cls != "Span":
            f["span"] = over["span"] if over and "span" in over else self.mk("Span", 0) if span else NONE_
        return T(cls, **f)

    def item(self, alt, depth):
        return self.leaf(alt) if alt in (S, N, B) else self.mk(alt, depth - 1, small=True)

    def of(self, cls):
        """Shapes of a class: required only; everything; each alternative of each field."""
        out = [self.mk(cls, 1, small=True), self.mk(cls, 2, span=True), self.mk(cls, 3)]
        for k, ty in SPEC[cls].items():
            if ty is B:
                out.append(self.mk(cls, 1, {k: TRUE_}))
            elif ty is S:
                if (cls, k) in MAYNONE:
                    out.append(self.mk(cls, 1, {k: NONE_}))
                out.append(self.mk(cls, 1, {k: K("")}))
            elif isinstance(ty, L):
                out.append(self.mk(cls, 1, {k: []}))
                for a in ty.alts:
                    out.append(self.mk(cls, 1, {k: [self.item(a, 2)]}))
                out.append(self.mk(cls, 1, {k: [self.item(a, 1) for a in (ty.alts * 3)[:3]]}))
            elif isinstance(ty, (One, Opt)):
                if isinstance(ty, Opt):
                    out.append(self.mk(cls, 1, {k: NONE_}))
                for a in ty.alts:
                    out.append(self.mk(cls, 1, {k: self.mk(a, 2)}))
        seen, res = set(), []
        for t in out:
            s = strip(t)
            if s not in seen:
                seen.add(s)
                res.append(t)
        return res


FALSE_, TRUE_ = K(False), K(True)


def strip(t):
    """Shape without leaf identities."""
    if isinstance(t, T):
        return (t.cls, tuple((k, strip(v)) for k, v in t.f.items()))
    if isinstance(t, list):
        return tuple(strip(x) for x in t)
    return "s" if isinstance(t, Sy) else "n" if isinstance(t, K) and type(t.v) is int else t


class Node:
    lineno = 0
    col_offset = 0

    def __init__(self, n):
        self._id = n


class Trees:
    def __init__(self, rep, stubs=False, observers=(), interp=Interp):
        self.rep = rep
        p = Project()
        if stubs:
            m = Module("stubs.visitors", os.path.join(HERE, "stubs", "visitors.py"), "rules/stubs/visitors.py")
            p.modules[m.name] = m
        self.it = it = interp(p, list(observers), tab_names=set())
        it.exact = True
        it.opaque_hook = self.opaque
        self.cls = {}
        for c in SPEC:
            self.cls[c] = it.find(AST + ":" + c)
        self.n = 0
        self.runs = 0

    def opaque(self, it, f, args, kw, st, node, fr):
        return None

    def chk(self, ok, rule, con, msg="", und=False):
        self.n += 1
        self.rep.check(ok, rule, con, msg, "", undecided=und)
        return ok

    # -------------------------------------------------------------- building
    def session(self, fn):
        it = self.it

        def root(it):
            st, fr, fid = new_root(it, AST)
            fn(st, fr)
            it.root_results = []
            return []
        self.runs += 1
        it.solve(root)

    def build(self, t, st, fr, tag="t"):
        """[(state, value)]: the tree built by the constructors."""
        if isinstance(t, list):
            cur = [(st, ())]
            for i, x in enumerate(t):
                cur = [(z, vs + (v,)) for y, vs in cur for z, v in self.build(x, y, fr, "%s.%d" % (tag, i))]
            out = []
            for y, vs in cur:
                a = ("o", ("root",), tag)
                while a in y.heap:
                    a = a[:2] + (a[2] + "'",)
                y.heap[a] = LRec(frozenset(), vs, frozenset(), frozenset(), None, 0)
                y.frames[fr.fid]["%k" + tag] = Obj(a)
                out.append((y, Obj(a)))
            return out
        if not isinstance(t, T):
            if isinstance(t, Sy):
                st.facts.setdefault(t.t, Fact(STR))
            return [(st, t)]
        cur = [(st, ())]
        for k, v in t.f.items():
            cur = [(z, kw + ((k, w),)) for y, kw in cur for z, w in self.build(v, y, fr, tag + "." + k)]
        out = []
        for y, kw in cur:
            for z, o in self.it.call(self.cls[t.cls], [], list(kw), y, Node(tag), fr):
                z.frames[fr.fid]["%k" + tag] = o
                out.append((z, o))
        return out

    def run(self, st, fn):
        it = self.it
        it.excs.append([])
        res = fn(st)
        ex = it.excs.pop()
        return [(s, "ok", v) for s, v in res] + [(s, "raise", v) for s, v in ex]

    # -------------------------------------------------------------- comparing
    def diff(self, st, v, t, path=""):
        """None when the value is the tree; else a description of the first difference."""
        if isinstance(t, T):
            r = st.heap.get(v.a) if isinstance(v, Obj) else None
            if not isinstance(r, Inst) or r.ci is None:
                return "%s is not a %s" % (path or "the result", t.cls)
            if r.ci.qual != AST + "." + t.cls:
                return "%s is a %s, not a %s" % (path or "the result", r.ci.name, t.cls)
            have = {n for n in r.f if not n.startswith("%")}
            for n in sorted(have ^ set(t.f)):
                return "field %s of %s is %s" % (n, path or t.cls, "missing" if n in t.f else "added")
            for n, x in t.f.items():
                d = self.diff(st, r.f[n], x, (path + "." if path else "") + n)
                if d:
                    return d
            return None
        if isinstance(t, list):
            r = st.heap.get(v.a) if isinstance(v, Obj) else None
            if not isinstance(r, LRec) or not r.exact():
                return "%s is not a list" % path
            if len(r.tail) != len(t):
                return "%s has %d items, not %d" % (path, len(r.tail), len(t))
            for i, x in enumerate(t):
                d = self.diff(st, r.tail[i], x, "%s[%d]" % (path, i))
                if d:
                    return d
            return None
        if v != t:
            return "%s is another value" % (path or "the result")
        return None

    def addrs(self, st, v, out=None):
        out = set() if out is None else out
        if isinstance(v, Obj) and v.a not in out:
            out.add(v.a)
            r = st.heap.get(v.a)
            if isinstance(r, Inst):
                for x in r.f.values():
                    self.addrs(st, x, out)
            elif isinstance(r, LRec):
                for x in r.tail:
                    self.addrs(st, x, out)
        return out

    def snapshot(self, st, v):
        return {a: st.heap.get(a) for a in self.addrs(st, v)}

    def same(self, st, snap):
        for a, r in snap.items():
            n = st.heap.get(a)
            if isinstance(r, Inst) and isinstance(n, Inst):
                if {k: v for k, v in r.f.items() if k[0] != "%"} != {k: v for k, v in n.f.items() if k[0] != "%"} or r.ci is not n.ci:
                    return "a %s is changed" % r.ci.name
            elif r != n:
                return "a list is changed"
        return None

    def shapes(self):
        sh = Shapes()
        for c in SPEC:
            for t in sh.of(c):
                yield t


# ---------------------------------------------------------------------- C12
def json_of(t):
    if isinstance(t, T):
        d = {k: json_of(v) for k, v in t.f.items()}
        d["type"] = K(t.cls)
        return d
    if isinstance(t, list):
        return [json_of(x) for x in t]
    return t


def json_diff(st, v, j, path="the JSON form"):
    if isinstance(j, dict):
        r = st.heap.get(v.a) if isinstance(v, Obj) else None
        if not isinstance(r, DRec) or r.rest is not None or r.org is not None:
            return "%s is not a dict" % path
        d = dict(r.items)
        keys = {k.v if isinstance(k, K) else k for k in d}
        for n in sorted(keys ^ set(j), key=str):
            return "%s: %s is %s" % (path, n, "missing" if n in j else "added")
        for n, x in j.items():
            e = json_diff(st, d[K(n)], x, path + "." + n)
            if e:
                return e
        return None
    if isinstance(j, list):
        r = st.heap.get(v.a) if isinstance(v, Obj) else None
        if not isinstance(r, LRec) or not r.exact() or len(r.tail) != len(j):
            return "%s is not a list of %d items" % (path, len(j))
        for i, x in enumerate(j):
            e = json_diff(st, r.tail[i], x, "%s[%d]" % (path, i))
            if e:
                return e
        return None
    return None if v == j else "%s is another value" % path


def tree_case(TR, t, todo):
    con = t.show()

    def go(st, fr):
        built = TR.run(st, lambda s: TR.build(t, s, fr))
        for s, how, o in built:
            if how == "raise":
                TR.chk(False, "stored", con, "construction raises " + TR.it.show_exc(s, o))
                continue
            todo(TR, s, fr, o, t, con)
    TR.session(go)


def c12_case(TR, st, fr, o, t, con):
    it = TR.it
    d = TR.diff(st, o, t)
    if not TR.chk(d is None, "stored", con, "after construction " + str(d)):
        return
    for s, how, v in TR.run(st.fork(), lambda s: it.callmethod(o, "clone", [], s, Node("clone"), fr)):
        d = "raises " + it.show_exc(s, v) if how == "raise" else TR.diff(s, v, t)
        TR.chk(d is None, "clone", con, "clone: " + str(d))
    for s, how, v in TR.run(st.fork(), lambda s: it.callmethod(o, "to_json", [], s, Node("json"), fr)):
        d = "raises " + it.show_exc(s, v) if how == "raise" else json_diff(s, v, json_of(t))
        if not TR.chk(d is None, "to-json", con, "to_json: " + str(d)):
            continue
        s.frames[fr.fid]["j"] = v
        f = it.find(AST + ":from_json")
        for z, how2, w in TR.run(s, lambda z: it.call(f, [v], [], z, Node("back"), fr)):
            d = "raises " + it.show_exc(z, w) if how2 == "raise" else TR.diff(z, w, t)
            TR.chk(d is None, "from-json", con, "from_json(to_json()): " + str(d))


def c12_omitted(TR, cls):
    """Optional arguments left out: None, False, or a new empty list of its own."""
    it = TR.it
    sh = Shapes()
    req = {k: sh.mk(cls, 1, small=True).f[k] for k, ty in SPEC[cls].items()
           if not isinstance(ty, (L, Opt)) and ty is not B and (cls, k) not in MAYNONE or k in ("elements", "variants")}
    want = T(cls, **{k: req.get(k, [] if isinstance(ty, L) else FALSE_ if ty is B else NONE_) for k, ty in SPEC[cls].items()})
    if cls != "Span":
        want.f["span"] = NONE_
    con = cls + " with optional arguments left out"

    def go(st, fr):
        for s, how, o in TR.run(st, lambda s: TR.build(T(cls, **req), s, fr)):
            d = "raises " + it.show_exc(s, o) if how == "raise" else TR.diff(s, o, want)
            if not TR.chk(d is None, "omitted", con, "after construction " + str(d)):
                continue
            for z, how2, o2 in TR.run(s, lambda s: TR.build(T(cls, **req), s, fr, "u")):
                a, b = (z.heap[x.a].f for x in (o, o2))
                sh_ = [k for k, v in a.items() if isinstance(v, Obj) and isinstance(z.heap.get(v.a), LRec) and b.get(k) == v]
                TR.chk(not sh_, "omitted", con, "field %s is shared between nodes" % sh_[:1])
    TR.session(go)


def c12(tier):
    r = Report("C12")
    r.rule("stored", "every constructor keyword is stored under its own name as given, and nothing else is stored")
    r.rule("omitted", "optional arguments left out become None, False or a new empty list")
    r.rule("clone", "clone gives a node of the same class with equal fields")
    r.rule("to-json", "the JSON form has every field and names the class")
    r.rule("from-json", "the node read back from the JSON form has the same class and fields")
    TR = Trees(r)
    for t in TR.shapes():
        tree_case(TR, t, c12_case)
    for c in SPEC:
        c12_omitted(TR, c)
    wrap(r, TR)
    return r


# ---------------------------------------------------------------------- C13
CHG = object()


def fresh(t, sh, spans=False):
    """The same shape with other leaves (and, on request, other spans)."""
    if isinstance(t, list):
        return [fresh(x, sh, spans) for x in t]
    if isinstance(t, T):
        if t.cls == "Span":
            return T("Span", **{k: K(v.v + 1000) if spans else v for k, v in t.f.items()})
        return T(t.cls, **{k: fresh(v, sh, spans) for k, v in t.f.items()})
    return sh.leaf(S) if isinstance(t, Sy) else t


def pairs_of(a, b):
    """Leaf pairs that must be equal."""
    if isinstance(a, list):
        for x, y in zip(a, b):
            yield from pairs_of(x, y)
    elif isinstance(a, T):
        for k in a.f:
            yield from pairs_of(a.f[k], b.f[k])
    elif isinstance(a, Sy):
        yield a, b


def edits(t, sh, path=()):
    """(path of field names, description, tree with one place changed)"""
    for k, v in t.f.items():
        ty = SPEC[t.cls].get(k)

        def put(w):
            f = dict(t.f)
            f[k] = w
            return T(t.cls, **f)
        p = path + (k,)
        if k == "span":
            if v == NONE_:
                yield p, "span added", put(sh.mk("Span", 0))
            else:
                yield p, "span removed", put(NONE_)
                yield p, "span moved", put(sh.mk("Span", 0))
                yield p, "span end moved", put(T("Span", start=v.f["start"], end=K(v.f["end"].v + 1)))
            continue
        if isinstance(v, list):
            alt = ty.alts[0]
            if v:
                yield p, "last of %s dropped" % k, put(v[:-1])
                if len(v) > 1:
                    yield p, "first of %s dropped" % k, put(v[1:])
                    yield p, "%s reversed" % k, put(v[::-1])
            yield p, "one of %s added" % k, put(v + [sh.item(alt, 1)])
            for i, x in enumerate(v):
                if isinstance(x, T):
                    for q, d, y in edits(x, sh, p):
                        yield q, "%s[%d]: %s" % (k, i, d), put(v[:i] + [y] + v[i + 1:])
                    for y in similar(x):
                        yield p, "%s[%d] a %s" % (k, i, y.cls), put(v[:i] + [y] + v[i + 1:])
                else:
                    yield p, "%s[%d] another" % (k, i), put(v[:i] + [sh.leaf(S)] + v[i + 1:])
        elif isinstance(v, T):
            for q, d, y in edits(v, sh, p):
                yield q, "%s: %s" % (k, d), put(y)
            for y in similar(v):
                yield p, "%s a %s" % (k, y.cls), put(y)
            if isinstance(ty, Opt):
                yield p, "%s removed" % k, put(NONE_)
        elif v == NONE_ and isinstance(ty, Opt):
            yield p, "%s added" % k, put(sh.mk(ty.alts[0], 1, small=True))
        elif ty is S:
            yield p, "%s another" % k, put(K("")) if v == NONE_ else put(NONE_) if (t.cls, k) in MAYNONE else put(sh.leaf(S))
        elif ty is B:
            yield p, "%s flipped" % k, put(K(not v.v))
        elif ty is N:
            yield p, "%s another" % k, put(K(v.v + 1))


SAME = [("Comment", "GroupComment", "ResourceComment"), ("TextElement", "StringLiteral", "NumberLiteral"), ("Message", "Term")]


def similar(t):
    for g in SAME:
        if t.cls in g:
            for c in g:
                if c != t.cls:
                    yield T(c, **t.f)


def hidden(ignored, path):
    return any(k in ignored for k in path)


def c13_eq(TR, st, fr, a, b, ignored):
    kw = []
    out = []
    todo = [(st, None)]
    if ignored is not None:
        todo = TR.build([K(x) for x in ignored], st, fr, "ig")
    for s, v in todo:
        kw = [("ignored_fields", v)] if v is not None else []
        out += TR.run(s, lambda s: TR.it.callmethod(a, "equals", [b], s, Node("eq"), fr, kw) if kw else
                      TR.it.callmethod(a, "equals", [b], s, Node("eq"), fr))
    res = []
    for s, how, v in out:
        if how == "raise":
            res.append((s, "raises " + TR.it.show_exc(s, v)))
        else:
            for z, t in TR.it.truth(v, s, Node("t"), fr):
                res.append((z, t))
    return res


def c13_fresh(TR, t, sh, ignored, spans, con):
    """Against the same shape with other leaves: equal exactly in the cases where each pair of leaves is equal."""
    b = fresh(t, sh, spans)
    prs = list(pairs_of(t, b))
    diff = spans and ignored is not None and "span" not in ignored and any(x.cls == "Span" for x in t.nodes())
    if t.cls == "Span":
        diff = spans

    def go(st, fr):
        for s, o in TR.build(t, st, fr, "t"):
            for z, p in TR.build(b, s, fr, "b"):
                snap = TR.snapshot(z, o), TR.snapshot(z, p)
                any_true = False
                for y, r in c13_eq(TR, z, fr, o, p, ignored):
                    d = None
                    if r is True:
                        any_true = True
                        miss = [x for x in prs if not equal(y, x)]
                        if diff:
                            d = "reports equality although the spans differ and are not ignored"
                        elif miss:
                            d = "reports equality although a pair of leaves may differ (%d of %d not compared)" % (len(miss), len(prs))
                    elif r is False:
                        if not diff and not any(unequal(y, x) for x in prs):
                            d = "reports a difference although all fields are equal"
                    else:
                        d = str(r)
                    TR.chk(d is None, "leaves", con, d or "", und=d is not None and not isinstance(r, bool) and not str(r).startswith("raises"))
                    d = TR.same(y, snap[0]) or TR.same(y, snap[1])
                    TR.chk(d is None, "read-only", con, "equals: %s" % d)
                TR.chk(any_true or diff, "leaves", con, "never reports equality")
    TR.session(go)


def eqfact(y, x):
    a, b = x
    for t in (("eq", a, b), ("eq", b, a)):
        f = y.facts.get(t)
        if f is not None and f.const is not None:
            return bool(f.const.v)
    for c, v in ((a, b), (b, a)):
        if isinstance(c, K) and isinstance(v, Sy):
            f = y.fact(v.t)
            if f.const is not None:
                return f.const == c
            if c in f.ne or c == K("") and f.truth:
                return False
            if c == K("") and f.truth is False:
                return True
    return None


def equal(y, x):
    return eqfact(y, x) is True


def unequal(y, x):
    return eqfact(y, x) is False


def may_equal(y, t, u):
    """Whether two trees are the same under the equalities assumed on the path."""
    if isinstance(t, T):
        return isinstance(u, T) and t.cls == u.cls and all(k == "span" or may_equal(y, t.f[k], u.f[k]) for k in t.f)
    if isinstance(t, list):
        return isinstance(u, list) and len(t) == len(u) and all(may_equal(y, a, b) for a, b in zip(t, u))
    return not isinstance(u, (T, list)) and (t == u or eqfact(y, (t, u)) is True)


def c13_edit(TR, fr, z, o, p, t, u, ignored, want, con):
    for a, b, how in ((o, p, ""), (p, o, " (reversed)")):
        for y, r in c13_eq(TR, z.fork(), fr, a, b, ignored):
            if not isinstance(r, bool):
                TR.chk(False, "changes", con, "equals%s: %s" % (how, r), und=not str(r).startswith("raises"))
            else:
                TR.chk(r is want or not want and may_equal(y, t, u), "changes", con, "equals%s is %s" % (how, r))


def c13_edits(TR, t, sh, seen, quick):
    def go(st, fr):
        for s, o in TR.build(t, st, fr, "t"):
            for path, d, u in edits(t, sh):
                con = "%s with %s" % (t.show(), d)
                k = (t.cls if len(path) < 2 else None, path[-2:], d.split(": ")[-1]) if quick else (strip(t), d)
                if seen.get(k, 0) >= (2 if quick else 1):
                    continue
                seen[k] = seen.get(k, 0) + 1
                for z, p in TR.build(u, s.fork(), fr, "b"):
                    c13_edit(TR, fr, z, o, p, t, u, None, hidden(["span"], path), con)
                    if "span" in path:
                        c13_edit(TR, fr, z, o, p, t, u, [], False, con + " (nothing ignored)")
                    c13_edit(TR, fr, z, o, p, t, u, [path[-1]], True, con + " (ignoring %s)" % path[-1])
                    if len(path) > 1:
                        c13_edit(TR, fr, z, o, p, t, u, [path[0]], True, con + " (ignoring %s)" % path[0])
                    n = [x for x in ("comment", "value", "id", "attributes") if x not in path][0]
                    c13_edit(TR, fr, z, o, p, t, u, [n, "span"], "span" in path, con + " (ignoring %s, span)" % n)
            for u in similar(t):
                for z, p in TR.build(u, s.fork(), fr, "b"):
                    c13_edit(TR, fr, z, o, p, t, u, None, False, "%s against a %s with the same fields" % (t.show(), u.cls))
    TR.session(go)


def c13(tier):
    r = Report("C13")
    r.rule("leaves", "nodes of one shape are equal exactly if every pair of leaves outside ignored fields is equal")
    r.rule("changes", "one change (class, list length or order, presence, leaf) makes nodes unequal unless it is in an ignored field")
    r.rule("read-only", "comparing changes neither tree")
    r.rule("extra", "fields added to or removed from a node take part in the comparison")
    TR = Trees(r)
    sh = Shapes()
    sh.n = 5000
    seen = {}
    for t in TR.shapes():
        c13_fresh(TR, t, sh, None, True, t.show() + " default")
        c13_fresh(TR, t, sh, [], False, t.show() + " nothing ignored")
        if any(x.cls == "Span" for x in t.nodes()):
            c13_fresh(TR, t, sh, [], True, t.show() + " nothing ignored, other spans")
        c13_edits(TR, t, sh, seen, tier != "thorough")
    for c in SPEC:
        c13_extra(TR, sh, c)
    wrap(r, TR)
    return r


def c13_extra(TR, sh, cls):
    """A field set by the user on a node, and a field deleted from it."""
    t = sh.mk(cls, 2, small=True)

    def go(st, fr):
        for s, o in TR.build(t, st, fr, "t"):
            for z, p in TR.build(t, s, fr, "b"):
                for d, va, vb in (("a field only on one side", K("x"), None), ("different added fields", K("x"), K("y")),
                                  ("the same added field", K("x"), K("x"))):
                    y = z.fork()
                    for ob, v in ((o, va), (p, vb)):
                        if v is not None:
                            h = y.heap[ob.a]
                            y.heap[ob.a] = Inst(h.ci, {**h.f, "note": v}, h.many, h.nt)
                    for w, res in c13_eq(TR, y, fr, o, p, None):
                        TR.chk(res is (va == vb), "extra", "%s with %s" % (cls, d), "equals: %s" % res)
                    for w, res in c13_eq(TR, y, fr, p, o, None):
                        TR.chk(res is (va == vb), "extra", "%s with %s" % (cls, d), "equals (reversed): %s" % res)
    TR.session(go)


# ---------------------------------------------------------------------- C14
STUB = "stubs.visitors"


def obj_tree(st, v, t, out):
    """Objects of the nodes of a tree: [(T, Obj)]"""
    out.append((t, v))
    f = st.heap[v.a].f
    for k, x in t.f.items():
        if isinstance(x, T):
            obj_tree(st, f[k], x, out)
        elif isinstance(x, list):
            for y, o in zip(x, st.heap[f[k].a].tail):
                if isinstance(y, T):
                    obj_tree(st, o, y, out)
    return out


def seen_list(st, v):
    r = st.heap.get(v.a)
    l = r.f.get("seen") if isinstance(r, Inst) else None
    r = st.heap.get(l.a) if isinstance(l, Obj) else None
    return list(r.tail) if isinstance(r, LRec) and r.exact() else None


def c14_visit(TR, st, fr, o, t, con):
    it = TR.it
    nodes = obj_tree(st, o, t, [])
    snap = TR.snapshot(st, o)
    for s, how, v in TR.run(st.fork(), lambda s: it.call(it.find(STUB + ":Everything"), [], [], s, Node("v"), fr)):
        s.frames[fr.fid]["v"] = v
        for z, how, w in TR.run(s, lambda z: it.callmethod(v, "visit", [o], z, Node("visit"), fr)):
            if how == "raise":
                TR.chk(False, "reaches", con, "visit raises " + it.show_exc(z, w))
                continue
            sl = seen_list(z, v)
            d = seen_diff(sl, [x for _, x in nodes], nodes)
            TR.chk(d is None, "reaches", con, str(d), und=sl is None)
            d = TR.same(z, snap)
            TR.chk(d is None, "read-only", con, "visiting: %s" % d)
    for stop in [None] + sorted({n.cls for n, _ in nodes if n is not t}):
        want = []
        walk(st, o, t, stop, want)
        for s, lv in TR.build([K(stop)] if stop else [], st.fork(), fr, "stop"):
            for z, v in it.call(it.find(STUB + ":Handlers"), [lv], [], s, Node("h"), fr):
                z.frames[fr.fid]["v"] = v
                for y, how, w in TR.run(z, lambda z: it.callmethod(v, "visit", [o], z, Node("visit"), fr)):
                    if how == "raise":
                        TR.chk(False, "dispatch", con, "visit raises " + it.show_exc(y, w))
                        continue
                    sl = seen_list(y, v)
                    c = con + (", %s not descended into" % stop if stop else "")
                    if sl is None:
                        TR.chk(False, "dispatch", c, "", und=True)
                        continue
                    bad = [x for x in sl if not (isinstance(x, Tup) and len(x.items) == 2)]
                    d = seen_diff([x.items[1] for x in sl], [x for _, x in want], nodes) if not bad else "?"
                    if d is None:
                        names = {x.items[1].a: x.items[0] for x in sl}
                        for n, x in want:
                            if names[x.a] != K(n.cls):
                                d = "%s is handled by %s" % (n.cls, names[x.a])
                    TR.chk(d is None, "dispatch", c, str(d))


def walk(st, o, t, stop, out):
    out.append((t, o))
    if t.cls == stop:
        return
    f = st.heap[o.a].f
    for k, x in t.f.items():
        if isinstance(x, T):
            walk(st, f[k], x, stop, out)
        elif isinstance(x, list):
            for y, p in zip(x, st.heap[f[k].a].tail):
                if isinstance(y, T):
                    walk(st, p, y, stop, out)


def seen_diff(sl, want, nodes):
    if sl is None:
        return "the visited nodes cannot be enumerated"
    names = {o.a: t.cls for t, o in nodes}
    got = [getattr(x, "a", None) for x in sl]
    w = [x.a for x in want]
    for a in w:
        n = got.count(a)
        if n != 1:
            return "a %s is visited %d times" % (names[a], n)
    for x, a in zip(sl, got):
        if a not in w:
            return "%s is visited" % (names.get(a) or "something that is not a node")
    return None


def places(t, o, st, top=True):
    """(parent object, field, index or None, child T, child object)"""
    f = st.heap[o.a].f
    for k, x in t.f.items():
        if isinstance(x, T):
            yield o, k, None, x, f[k]
            yield from places(x, f[k], st)
        elif isinstance(x, list):
            for i, y in enumerate(x):
                if isinstance(y, T):
                    yield o, k, i, y, st.heap[f[k].a].tail[i]
                    yield from places(y, st.heap[f[k].a].tail[i], st)


def c14_transform(TR, st, fr, o, t, con):
    it = TR.it
    pl = list(places(t, o, st))
    plans = [("nothing changed", [])]
    for p in pl:
        name = "%s%s of %s" % (p[1], "" if p[2] is None else "[%d]" % p[2], st.heap[p[0].a].ci.name)
        plans.append(("%s replaced" % name, [(p, Sy(("in", "new")))]))
        for v in (K(""), K(0), FALSE_):
            plans.append(("%s replaced by %r" % (name, v.v), [(p, v)]))
        plans.append(("%s removed" % name, [(p, NONE_)]))
        plans.append(("%s kept" % name, [(p, p[4])]))
    direct = [p for p in pl if p[0] == o]
    plans.append(("all children removed", [(p, NONE_) for p in direct]))
    plans.append(("all children replaced", [(p, Sy(("in", "new%d" % i))) for i, p in enumerate(direct)]))
    for k in {p[1] for p in direct if p[2] is not None}:
        mine = [p for p in direct if p[1] == k]
        for i in range(len(mine)):
            plans.append(("all of %s but %d removed" % (k, i), [(p, NONE_) for j, p in enumerate(mine) if j != i]))
            plans.append(("%s[%d] removed and the rest replaced" % (k, i),
                          [(p, NONE_ if i == j else Sy(("in", "new%d" % j))) for j, p in enumerate(mine)]))
    for what, plan in plans:
        c14_plan(TR, st.fork(), fr, o, t, "%s: %s" % (con, what), plan)


def c14_plan(TR, st, fr, o, t, con, plan):
    it = TR.it
    heap0 = {a: st.heap.get(a) for a in TR.addrs(st, o)}
    for _, v in plan:
        if isinstance(v, Sy):
            st.facts[v.t] = Fact(STR)
    res = {(p[0].a, p[1], p[2]): v for p, v in plan}
    for s, lv in TR.build([Tup((p[4], v)) for p, v in plan], st, fr, "plan"):
        for z, v in it.call(it.find(STUB + ":Edits"), [lv], [], s, Node("e"), fr):
            z.frames[fr.fid]["v"] = v
            for y, how, w in TR.run(z, lambda z: it.callmethod(v, "visit", [o], z, Node("visit"), fr)):
                if how == "raise":
                    TR.chk(False, "transform", con, "visit raises " + it.show_exc(y, w))
                    continue
                d = "the result is not the node" if w != o else None
                for a, r0 in heap0.items():
                    r1 = y.heap.get(a)
                    if d or not isinstance(r0, Inst) or dropped(a, o, plan, heap0):
                        continue
                    for k, x in r0.f.items():
                        if k.startswith("%") or d:
                            continue
                        d = field_diff(y, r0.ci.name, a, k, x, r1.f, res, heap0)
                TR.chk(d is None, "transform", con, str(d))


def dropped(a, root, plan, heap0):
    """Below a replaced child the tree does not matter."""
    for p, v in plan:
        if v != p[4]:
            todo = [p[4]]
            while todo:
                x = todo.pop()
                if isinstance(x, Obj) and x.a in heap0:
                    if x.a == a:
                        return True
                    r = heap0[x.a]
                    todo += list(r.f.values()) if isinstance(r, Inst) else list(r.tail)
    return False


def field_diff(y, cname, a, k, x, now, res, heap0):
    old = heap0.get(x.a) if isinstance(x, Obj) else None
    if isinstance(old, LRec):
        want = [res.get((a, k, i), c) for i, c in enumerate(old.tail)]
        want = [c for c in want if c != NONE_]
        r = y.heap.get(now[k].a) if isinstance(now.get(k), Obj) else None
        if not isinstance(r, LRec) or not r.exact():
            return "%s of %s is not a list afterwards" % (k, cname)
        if list(r.tail) != want:
            return "%s of %s has %d items afterwards, expected %d%s" % (
                k, cname, len(r.tail), len(want), "" if len(r.tail) != len(want) else " (others, or in another order)")
        return None
    want = res.get((a, k, None), x)
    if (a, k, None) in res and want == NONE_:
        return None if now.get(k, NONE_) == NONE_ else "%s of %s is not removed" % (k, cname)
    if k not in now:
        return "%s of %s is gone" % (k, cname)
    return None if now[k] == want else "%s of %s does not hold the result afterwards" % (k, cname)


def c14_case(TR, st, fr, o, t, con):
    c14_visit(TR, st, fr, o, t, con)
    c14_transform(TR, st, fr, o, t, con)


def c14(tier):
    r = Report("C14")
    r.rule("reaches", "a visitor without handlers passes every node once through generic_visit")
    r.rule("dispatch", "each node reaches the handler named after its class, once; below a handler that does not descend nothing is reached")
    r.rule("read-only", "visiting leaves the tree unchanged")
    r.rule("transform", "each child is replaced by what its handler returned, removed for None, and everything else is kept")
    TR = Trees(r, stubs=True)
    for t in TR.shapes():
        tree_case(TR, t, c14_case)
    lists(TR)
    wrap(r, TR)
    return r


def lists(TR):
    """visit() on a list of nodes and on values that are not nodes."""
    it = TR.it
    sh = Shapes()
    t = [sh.mk("Identifier", 1), sh.mk("Comment", 1), sh.mk("Placeable", 2)]

    def go(st, fr):
        for s, lv in TR.build(t, st, fr, "t"):
            nodes = [p for x, o in zip(t, s.heap[lv.a].tail) for p in obj_tree(s, o, x, [])]
            for z, v in it.call(it.find(STUB + ":Everything"), [], [], s, Node("v"), fr):
                z.frames[fr.fid]["v"] = v
                for y, how, w in TR.run(z.fork(), lambda z: it.callmethod(v, "visit", [lv], z, Node("visit"), fr)):
                    d = "raises " + it.show_exc(y, w) if how == "raise" else seen_diff(seen_list(y, v), [x for _, x in nodes], nodes)
                    TR.chk(d is None, "reaches", "a list of nodes", str(d))
                for x in (NONE_, K("text"), K(3)):
                    for y, how, w in TR.run(z.fork(), lambda z: it.callmethod(v, "visit", [x], z, Node("visit"), fr)):
                        d = "raises " + it.show_exc(y, w) if how == "raise" else None if seen_list(y, v) == [] else "something is visited"
                        TR.chk(d is None, "reaches", "the value %r, which is not a node" % (x.v,), str(d))
    TR.session(go)


# ---------------------------------------------------------------------- C11
def entry_points(TR, o, t):
    """(what is done, how) on a node."""
    it = TR.it
    out = [("cloning", lambda s, fr: it.callmethod(o, "clone", [], s, Node("op"), fr)),
           ("converting to JSON", lambda s, fr: it.callmethod(o, "to_json", [], s, Node("op"), fr)),
           ("printing", lambda s, fr: it.callmethod(o, "__str__", [], s, Node("op"), fr)),
           ("comparing with itself", lambda s, fr: it.callmethod(o, "equals", [o], s, Node("op"), fr)),
           ("visiting", lambda s, fr: [z for y, v in it.call(it.find(STUB + ":Everything"), [], [], s, Node("v"), fr)
                                       for z in it.callmethod(v, "visit", [o], y, Node("op"), fr)])]
    return out


SER = "fluent.syntax.serializer"


def c11_case(TR, st, fr, o, t, con):
    it = TR.it
    snap = TR.snapshot(st, o)
    for what, fn in entry_points(TR, o, t):
        for s, how, v in TR.run(st.fork(), lambda s: fn(s, fr)):
            d = TR.same(s, snap)
            TR.chk(d is None, "unchanged", "%s %s" % (what, con), "%s: %s" % (what, d))
            if what == "cloning" and how == "ok":
                both = TR.addrs(s, v) & set(snap)
                names = {type(s.heap[a]).__name__ if not isinstance(s.heap[a], Inst) else s.heap[a].ci.name for a in both}
                TR.chk(not both, "clone-apart", con, "the clone shares a %s with its original" % ", ".join(sorted(names)))


def c11(tier):
    r = Report("C11")
    r.rule("unchanged", "cloning, printing, JSON conversion, comparison, visiting, serializing and use in a bundle leave every node and list of the tree as it was")
    r.rule("clone-apart", "no node or list of a clone is one of its original")
    TR = Trees(r, stubs=True)
    for t in TR.shapes():
        tree_case(TR, t, c11_case)
    from .serial_rules import c11_bundle, c11_serial
    T2 = c11_serial(r)
    T3 = c11_bundle(r)
    wrap(r, TR)
    r.count("serialized trees", T2.runs)
    r.count("trees added to a bundle", T3.runs)
    return r


BOUND = ("every node class of the syntax tree with each alternative of each field and lists of up to three items, to "
         "depth three below the node; leaves are arbitrary strings")


def wrap(r, TR):
    r.count("trees", TR.runs)
    r.count("conditions compared", TR.n)
    r.assumptions.append(BOUND)
    if TR.it.gaveup:
        r.note("given up: %d" % TR.it.gaveup)
    for u in list(TR.it.unsupported)[:3]:
        r.note("imprecision: %s" % (str(u)[:200],))
