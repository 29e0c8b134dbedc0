"""C29, C30, C31: conversion of native values, merging of options, use of options when formatting."""
import ast as A

from sa.interp import Interp
from sa.project import AnalysisBroken, Project
from sa.state import DRec, Fact, Inst
from sa.values import *  # noqa

from .engine_run import RootNode, new_root
from .report import Report, where
from .rt_common import BUNDLE, TYPES, Harness, _contains, sy

NATIVE = {"int": "builtins.int", "bool": "builtins.bool", "float": "builtins.float", "Decimal": "decimal.Decimal",
          "datetime": "datetime.datetime", "date": "datetime.date"}
KIND = {"int": "builtins.int", "bool": "builtins.int", "float": "builtins.float", "Decimal": "decimal.Decimal",
        "datetime": "datetime.datetime", "date": "datetime.date"}
WRAPPED = {"FluentInt": "int", "FluentFloat": "float", "FluentDecimal": "Decimal", "FluentDateTime": "datetime",
           "FluentDate": "date"}
PARTS = {"datetime.datetime": ["year", "month", "day", "hour", "minute", "second", "microsecond", "tzinfo"],
         "datetime.date": ["year", "month", "day"]}
KWPARTS = {"datetime.datetime": ["fold"]}
OTHER = {"str": "builtins.str", "NoneType": "builtins.NoneType", "list": "builtins.list", "FluentNone": TYPES + ".FluentNone"}
NUMBERS = ("int", "bool", "float", "Decimal", "FluentInt", "FluentFloat", "FluentDecimal")
FRESH = {"babel.numbers.NumberPattern", "copy.copy", "copy.deepcopy", "copy.replace"}


def is_number(n):
    return n in NUMBERS


class TypeRuns:
    def __init__(self):
        self.it = Interp(Project(), [self], tab_names=set())
        self.it.linear_ints = True
        for n in ("fluent_number", "fluent_date", "FluentNumber", "FluentNumber.format", "FluentDateType",
                  "FluentDateType.format", "NumberFormatOptions", "DateFormatOptions"):
            self.it.find(TYPES + ":" + n)
        self.writes = []
        self.prov = {}
        self.on = False

    always = False

    def options(self, num):
        ci = self.it.find(TYPES + ":" + ("NumberFormatOptions" if num else "DateFormatOptions")).ci
        return ci, [(n, ann) for n, v, c, ann in self.it.attr_fields(ci)]

    # ------------------------------------------------------------------ one abstract run
    def run(self, name, kw=(), fmt=False, fn=None):
        """Outcomes of fluent_number/fluent_date on any value of the kind, with options, and of formatting the result."""
        it = self.it
        num = is_number(name)
        f = it.find(TYPES + ":" + (fn or ("fluent_number" if num else "fluent_date")))

        def root(it):
            st, fr, fid = new_root(it, TYPES)
            v = sy(st, "val", NATIVE.get(name) or (TYPES + "." + name if name in WRAPPED else OTHER[name]))
            st.frames[fid]["v"] = v
            if name in WRAPPED:
                o = sy(st, "opt", self.options(num)[0].qual, truth=True)
                st.heap[v] = Inst(None, {"options": o})
            for k, x in kw:
                if isinstance(x, Sy):
                    st.facts[x.t] = Fact()
            st.ghost["sig"] = ()
            st.ghost["warned"] = ()
            self.on = True
            res = it.call_fn(f, [v], list(kw), st, RootNode, fr)
            self.created = [(s.fork(), x) for s, x in res]
            self.crexc = list(it.excs[0])
            if fmt:
                out = []
                for s, x in res:
                    s.frames[fid]["x"] = x
                    s.ghost["sig"] = ()
                    loc = sy(s, "locale", "babel.core.Locale", truth=True)
                    out += it.callmethod(x, "format", [loc], s, FmtNode, fr)
                res = out
            it.root_results = res
            it.root_excs = list(it.excs[0])
            self.on = False
            return res
        it.solve(root)
        return it.root_results, it.root_excs

    # ------------------------------------------------------------------ events
    def write(self, it, st, b, what, node, fr):
        if not self.on or not it.final:
            return
        r = self.shared(st, b)
        if r:
            self.writes.append((r, what, where(node, fr)))

    def shared(self, st, b):
        """Why the object written to may be shared, None if it is not, '?' if unknown."""
        if isinstance(b, Part) and b.args:
            return self.shared(st, b.args[0])
        if isinstance(b, Obj):
            p = b.a[1] if len(b.a) > 1 else ()
            if isinstance(p, tuple) and p and isinstance(p[0], str) and p[0].startswith("fluent."):
                return "an object shared by the whole process"
            return None
        if isinstance(b, (Cl, Md)):
            return "a class or module"
        if isinstance(b, Sy):
            return self.term(b.t)
        return None

    def term(self, t):
        if t[0] == "in":
            return {"val": "the value it is derived from", "opt": "the options of the value it is derived from",
                    "locale": "the locale data"}.get(t[1])
        if t[0] == "c":
            what = t[1]
            q = what[1] if what[0] == "ext" else None
            if t[3] and t[3][0] != "root":
                return "an object shared by the whole process"
            if q in FRESH:
                return None
            if q == "babel.numbers.parse_pattern":
                a = self.prov.get(t, ())
                if any(isinstance(x, Sy) and x.t[0] == "c" and x.t[1][0] == "m" and x.t[1][1] == "get" or
                       isinstance(x, Sy) and x.t[0] == "i" for x in a):
                    return "the locale data (parse_pattern returns a pattern object unchanged)"
                return None
            if what[0] == "m" and self.contains_locale(what):
                return "the locale data"
            if what[0] == "sy" and self.contains_locale(what):
                return "the locale data"
            return "?"
        if t[0] in ("a", "i"):
            return self.term(t[1].t) if isinstance(t[1], Sy) else self.shared(None, t[1])
        if self.contains_locale(t):
            return "the locale data"
        return "?"

    def contains_locale(self, t):
        return _contains(t, ("in", "locale"))

    def on_setattr(self, it, st, b, name, v, node, fr):
        self.write(it, st, b, "attribute %s is set" % name, node, fr)

    def on_delattr(self, it, st, b, name, node, fr):
        self.write(it, st, b, "attribute %s is deleted" % name, node, fr)

    def on_mutate(self, it, st, base, kind, detail, node, fr):
        self.write(it, st, base, kind, node, fr)

    def on_dictput(self, it, st, base, *a):
        self.write(it, st, base, "an entry is set", a[-2], a[-1])

    def on_static_write(self, it, st, *a):
        if self.on and it.final:
            self.writes.append(("an object shared by the whole process", "write", where(a[-2], a[-1])))

    def on_global_write(self, it, st, *a):
        if self.on and it.final:
            self.writes.append(("a global variable", "write", where(a[-2], a[-1])))

    def on_warn(self, it, st, args, kw, node, fr):
        if self.on:
            st.ghost["warned"] = st.ghost.get("warned", ()) + (1,)
            st.ghost["sig"] = st.ghost.get("sig", ()) + ("warn",)

    def on_opaque(self, it, st, what, args, kw, node, fr):
        self.prov[("c", what, node._id, fr.path)] = tuple(args)
        if self.on:
            st.ghost["sig"] = st.ghost.get("sig", ()) + (self.render(st, (what, tuple(args), tuple(kw))),)

    def render(self, st, x, d=0):
        if d > 12:
            return "..."
        if isinstance(x, Obj):
            r = st.heap.get(x.a)
            if isinstance(r, Inst):
                if r.nt is not None:
                    return ("value", r.ci.name)
                return (r.ci.name if r.ci else "?", tuple((n, self.render(st, v, d + 1)) for n, v in sorted(r.f.items())))
            return "obj"
        if isinstance(x, Sy):
            ov = st.heap.get(x)
            t = self.render(st, x.t, d + 1)
            if isinstance(ov, Inst) and x.t[0] != "in":
                return (t, tuple((n, self.render(st, v, d + 1)) for n, v in sorted(ov.f.items())))
            return t
        if isinstance(x, K):
            return repr(x)
        if isinstance(x, tuple):
            return tuple(self.render(st, y, d + 1) for y in x)
        if isinstance(x, V):
            return (type(x).__name__,) + tuple(self.render(st, getattr(x, f), d + 1) for f in x.fields)
        if isinstance(x, (str, int, type(None))):
            return x
        return type(x).__name__


class FmtNode:
    _id = "fmt"
    lineno = 0
    col_offset = 0


# ---------------------------------------------------------------------- C30
class ArgHarness(Harness):
    caps = None

    def opaque(self, it, f, args, kw, st, node, fr):
        if self.caps is not None and f == self.pattern and len(args) == 1 and isinstance(args[0], Obj):
            if it.final:
                self.caps.append((st.fork(), args[0]))
        return Harness.opaque(self, it, f, args, kw, st, node, fr)


def converted(rep, it, st, name, r, v, place, other=None):
    """r is what the value v of kind `name` became."""
    con = "%s: %s" % (place, name)
    if name in OTHER:
        rep.check(r == v, "unchanged", con, "becomes %s" % show(st, r), "")
        return
    kind = KIND[WRAPPED.get(name, name)]
    if name in WRAPPED and r == v:
        rep.check(True, "kind", con, "", "")
        return
    x = st.heap.get(r.a) if isinstance(r, Obj) else None
    if not isinstance(x, Inst) or x.ci is None:
        und = isinstance(r, (Sy, Top)) and r != v
        rep.check(False, "kind", con, "becomes %s, which is no Fluent type" % show(st, r), "", undecided=und)
        return
    fl = any(getattr(c, "qual", None) == TYPES + ".FluentType" for c in x.ci.mro() if hasattr(c, "qual"))
    nat = [b for b in x.ci.ext_bases() if b in KIND.values()]
    rep.check(fl and nat[:1] == [kind], "kind", con, "is wrapped as %s" % x.ci.name, "")
    if x.nt is None:
        rep.check(False, "value", con, "the value of the %s is unknown" % x.ci.name, "", undecided=True)
        return
    _, base, args, kw = x.nt.t
    if kind not in PARTS:
        rep.check(args[:1] == (v,), "value", con, "is wrapped with the value %s" % (show(st, args[0]) if args else "of nothing"),
                  "", undecided=bool(args) and unclear(args[0], v) or not args and bool(kw))
    else:
        got = dict(zip(PARTS[kind], args))
        got.update(dict(kw))
        for p in PARTS[kind] + KWPARTS.get(kind, []):
            w = got.get(p)
            rep.check(w == Sy(("a", v, p)), "value", "%s.%s" % (con, p),
                      "the %s is %s" % (p, "dropped" if w is None else show(st, w)), "",
                      undecided=unclear(w, v))
    if name in WRAPPED:
        o = x.f.get("options")
        rep.check(o is not None and same_options(st, o, other), "options-kept", con, "its options are %s" % show(st, o), "")


def unclear(w, v):
    """Neither a constant nor plainly something else."""
    if w is None or isinstance(w, K):
        return False
    if isinstance(w, Sy):
        if w.t[0] == "a" and w.t[1] == v:
            return False
        t = w.t
        while t[0] == "a" and isinstance(t[1], Sy):
            t = t[1].t
        return t[0] != "in" or contains_val(w, v)
    return True


def same_options(st, o, opt):
    if o == opt:
        return True
    r = st.heap.get(o.a) if isinstance(o, Obj) else None
    return isinstance(r, Inst) and all(x == Sy(("a", opt, n)) for n, x in r.f.items() if not n.startswith("%"))


def contains_val(x, v):
    return _contains(x, v.t)


def show(st, x):
    if isinstance(x, K):
        return repr(x.v)
    if isinstance(x, Obj):
        r = st.heap.get(x.a)
        return "a new " + (r.ci.name if isinstance(r, Inst) and r.ci is not None else "object")
    if isinstance(x, Sy):
        t = x.t
        if t[0] == "in":
            return {"val": "the value itself", "opt": "its options"}.get(t[1], t[1])
        if t[0] == "a":
            return "%s of %s" % (t[2], show(st, t[1]))
    return str(x)[:60]


def c30(tier):
    rep = Report("C30")
    rep.rule("kind", "a native value is wrapped as the Fluent type of its most specific kind")
    rep.rule("value", "every component of the value is carried over")
    rep.rule("options-kept", "a value that carries options keeps them")
    rep.rule("unchanged", "any other value is passed on unchanged")
    rep.assumptions += ["numbers wrapped with no explicit options; the native constructors keep the value they are given"]
    H = ArgHarness([])
    it = H.it
    H.discover()
    if not H.p_args:
        raise AnalysisBroken("format_pattern hands no arguments to the pattern")

    def one(name, n2):
        H.caps = []

        def root(it):
            st, fr, fid = new_root(it, BUNDLE)
            b = sy(st, "bundle", BUNDLE + ".FluentBundle", truth=True)
            H.pattern = sy(st, "pattern")
            vs = []
            for i, n in (("val", name), ("val2", n2)):
                v = sy(st, i, NATIVE.get(n) or (TYPES + "." + n if n in WRAPPED else OTHER[n]))
                if n in WRAPPED:
                    o = sy(st, i + ".opt", TYPES + (".NumberFormatOptions" if is_number(n) else ".DateFormatOptions"), truth=True)
                    st.heap[v] = Inst(None, {"options": o})
                    # a wrapped number of currency style has a currency
                    if is_number(n):
                        st.facts[("a", o, "currency")] = Fact(frozenset([("builtins.str", ())]))
                vs.append(v)
            a = ("o", ("root",), "args")
            st.heap[a] = DRec(((K("x"), vs[0]), (K("y"), vs[1])))
            st.frames[fid]["args"] = Obj(a)
            H.vs = vs
            res = it.callmethod(b, "format_pattern", [H.pattern, Obj(a)], st, RootNode, fr)
            it.root_results = res
            it.root_excs = list(it.excs[0])
            return res
        it.solve(root)
        rep.count("runs of format_pattern")
        rep.check(bool(H.caps), "kind", "format_pattern: %s argument" % name, "the pattern is not evaluated", "")
        for st, env in H.caps:
            d = H.read(st, env, H.p_args[0])
            r = st.heap.get(d.a) if isinstance(d, Obj) else None
            for k, n, v in (("x", name, H.vs[0]), ("y", n2, H.vs[1])):
                w = r.get(K(k)) if isinstance(r, DRec) else None
                if w is None:
                    rep.check(False, "value", "argument: %s" % n, "the argument is dropped", "",
                              undecided=not isinstance(r, DRec) or r.rest is not None or r.org is not None)
                    continue
                converted(rep, it, st, n, w, v, "argument", Sy(("in", ("val", "val2")[k == "y"] + ".opt")))
        for st, v in it.root_excs:
            rep.check(False, "kind", "format_pattern: %s argument" % name, "raises " + it.show_exc(st, v), "")
    names = list(NATIVE) + list(WRAPPED) + list(OTHER)
    for i, n in enumerate(names):
        for m in (names if tier == "thorough" else [names[(i + 4) % len(names)]]):
            one(n, m)
    R = TypeRuns()
    for n in list(NATIVE) + list(WRAPPED):
        res, exc = R.run(n)
        for st, r in res:
            converted(rep, R.it, st, n, r, Sy(("in", "val")), "fluent_number" if is_number(n) else "fluent_date", Sy(("in", "opt")))
        rep.count("runs of fluent_number/fluent_date")
    for fn in ("fluent_number", "fluent_date"):
        res, exc = R.run("FluentNone", fn=fn)
        for st, r in res:
            converted(rep, R.it, st, "FluentNone", r, Sy(("in", "val")), fn)
    for u in list(R.it.unsupported)[:3] + list(it.unsupported)[:3]:
        rep.note("imprecision: " + str(u)[:200])
    return rep


# ---------------------------------------------------------------------- C29
def legal(ann):
    """[constants] the annotation of an option allows."""
    lits = []
    bare = set()
    for x in A.walk(ann) if ann is not None else ():
        if isinstance(x, A.Subscript) and A.dump(x.value).find("Literal") >= 0:
            for c in A.walk(x.slice):
                if isinstance(c, A.Constant):
                    lits.append(c.value)
        if isinstance(x, A.Name):
            bare.add(x.id)
    if lits:
        return [K(x) for x in lits], True
    if "bool" in bare:
        return [TRUE, FALSE], False
    if "int" in bare:
        return [K(4), K(5)], False
    return [K("EUR"), K("USD")], False


def c29(tier):
    rep = Report("C29")
    rep.rule("not-shared", "creating or formatting a value writes to nothing but objects created by that call")
    rep.rule("override", "an option given explicitly has the value given")
    rep.rule("inherit", "every other option has the inherited value")
    rep.assumptions += ["babel's NumberPattern constructor and copy.copy create new objects, parse_pattern does for strings"]
    R = TypeRuns()
    it = R.it
    for n in list(NATIVE) + list(WRAPPED):
        num = is_number(n)
        ci, opts = R.options(num)
        names = [x for x, _ in opts]
        inherited = {}
        if n in WRAPPED:
            inherited = {x: Sy(("a", Sy(("in", "opt")), x)) for x in names}
        else:
            inherited = defaults(it, ci)
        kws = [()]
        for k, ann in opts:
            if k == "timeStyle" and WRAPPED.get(n, n) == "date":
                continue
            vals = legal(ann)[0]
            for v in (vals if tier == "thorough" else vals[-2:]):
                if k == "style" and v == K("currency"):
                    kws.append(((k, v), ("currency", K("EUR"))))
                else:
                    kws.append(((k, v),))
        if tier == "thorough":
            base = [x for x in kws if len(x) == 1]
            kws += [a + b for a in base for b in base if a[0][0] < b[0][0] and a[0][0] != "style" and b[0][0] != "style"]
        for kw in kws:
            R.writes.clear()
            R.run(n, kw, fmt=True)
            rep.count("abstract runs")
            if kw:
                for st, r in R.created:
                    merged(rep, R, st, n, r, kw, names, inherited)
            rep.check(True, "not-shared", "%s %s" % (n, ", ".join(k for k, _ in kw)), "", "")
            for why, what, w in R.writes:
                rep.check(False, "not-shared", "%s: %s" % (what, why), "written while a %s is created with %s or formatted" % (
                    n, ", ".join(k for k, _ in kw) or "no options"), w, undecided=why == "?")
    for u in list(it.unsupported)[:3]:
        rep.note("imprecision: " + str(u)[:200])
    return rep


def defaults(it, ci):
    def root(it):
        st, fr, fid = new_root(it, TYPES)
        res = it.call(Cl(ci), [], [], st, RootNode, fr)
        it.root_results = res
        it.root_excs = []
        return res
    it.solve(root)
    for st, o in it.root_results:
        return dict(st.heap[o.a].f)
    return {}


def merged(rep, R, st, n, r, kw, names, inherited):
    x = st.heap.get(r.a) if isinstance(r, Obj) else None
    o = x.f.get("options") if isinstance(x, Inst) else None
    f = st.heap.get(o.a) if isinstance(o, Obj) else None
    con = "%s(%s)" % (n, ", ".join(k for k, _ in kw))
    if not isinstance(f, Inst):
        rep.check(False, "override", con, "the options are %s" % show(st, o or r), "", undecided=not (
            r == Sy(("in", "val")) or o == Sy(("in", "opt"))))
        return
    given = dict(kw)
    for k in names:
        v = f.f.get(k)
        if k in given:
            rep.check(v == given[k], "override", "%s: %s" % (con, k), "is %s, not the value given" % show(st, v), "",
                      undecided=isinstance(v, (Sy, Top)) and v != inherited.get(k))
        else:
            w = inherited.get(k)
            ok = v == w or isinstance(w, Sy) and v is not None and st.fact(w.t).const == v
            rep.check(ok, "inherit", "%s: %s" % (con, k), "is %s, not the inherited value" % show(st, v), "",
                      undecided=isinstance(v, Top) or isinstance(v, Sy) and v.t[0] in ("upd", "kwopt"))


# ---------------------------------------------------------------------- C31
def sigs(R, n, kw):
    """What formatting depends on: the set of traces of library calls with their arguments."""
    res, exc = R.run(n, kw, fmt=True)
    out = set()
    for st, v in res:
        out.add((st.ghost.get("sig", ()), R.render(st, v)))
    return frozenset(out), [R.it.show_exc(s, v) for s, v in R.crexc]


def c31(tier):
    rep = Report("C31")
    rep.rule("number-option", "each number option changes what formatting does")
    rep.rule("number-pair", "each number option changes what formatting does whatever other option is set")
    rep.rule("date-option", "each date option changes what formatting does, or causes a warning when used")
    rep.rule("undeclared", "an undeclared option is rejected")
    rep.rule("choices", "a value outside the declared choices is rejected, and every declared choice is accepted")
    rep.rule("requires", "currency style without a currency and a time style for a plain date are rejected")
    rep.rule("inherited-option", "an inherited option changes what formatting does like an explicit one")
    rep.assumptions += ["an option influences formatting if it changes the calls made to babel or their arguments; what babel "
                        "makes of them is not analysed", "the ordinal/cardinal type is decided by C26"]
    R = TypeRuns()
    ci, opts = R.options(True)
    cache = {}

    def sig(n, kw):
        key = (n, tuple(sorted(kw, key=repr)))
        if key not in cache:
            cache[key] = sigs(R, n, key[1])
            rep.count("abstract runs")
        return cache[key]
    styles = {"decimal": (), "percent": (("style", K("percent")),), "currency": (("style", K("currency")), ("currency", K("EUR")))}
    kinds = ("int", "float", "Decimal") if tier == "thorough" else ("float",)

    def values(k, ann):
        if k == "currency":
            return [K("EUR"), K("USD")]
        if "Fraction" in k:
            return [K(0), K(4), K(5)]
        vals, lit = legal(ann)
        return vals if lit or vals[:1] == [TRUE] else vals
    digits = [k for k, _ in opts if "Digits" in k]
    for n in kinds:
        for s, base in styles.items():
            d, de = sig(n, base)
            rep.check(not de and bool(d), "number-option", "style %s" % s, "formatting fails", "", undecided=not de)
            for k, ann in opts:
                if k in ("style", "type") or k in ("currency", "currencyDisplay") and s != "currency":
                    continue
                seen = {}
                start = list(base)
                for v in values(k, ann):
                    kw = [x for x in start if x[0] != k] + [(k, v)]
                    g, e = sig(n, tuple(kw))
                    if e:
                        rep.check(False, "choices", "%s=%r" % (k, v.v), "is rejected: %s" % e[0], "")
                        continue
                    twin = [w for w, h in seen.items() if h == g]
                    rep.check(not twin, "number-option", "%s (%s style)" % (k, s),
                              "%r and %r format alike" % (twin[0].v if twin else None, v.v), "")
                    seen[v] = g
                    # against not giving the option
                    if "Digits" in k and not (k == "minimumFractionDigits" and v == K(0) and s != "currency"):
                        rep.check(g != d, "number-option", "%s=%r (%s style)" % (k, v.v, s), "formats as if it were not given", "")
                # with another option in force
                for k2, ann2 in opts:
                    if k2 in ("style", "type", k) or k2 in ("currency", "currencyDisplay") and s != "currency":
                        continue
                    if "Significant" in k2 and k in digits and "Significant" not in k:
                        continue        # significant digits take precedence
                    for v2 in [x for x in values(k2, ann2) if x not in (TRUE, K("symbol"))][-2:]:
                        if k2 == "currencyDisplay" and v2 == K("name"):
                            continue
                        rest = [x for x in start if x[0] not in (k, k2)] + [(k2, v2)]
                        vs = [v for v in values(k, ann)][-2:]
                        a, e1 = sig(n, tuple(rest + [(k, vs[0])]))
                        b, e2 = sig(n, tuple(rest + [(k, vs[1])]))
                        if e1 or e2:
                            rep.check(False, "number-pair", "%s with %s" % (k, k2), "is rejected: %s" % (e1 + e2)[0], "")
                            continue
                        rep.check(a != b, "number-pair", "%s with %s (%s style)" % (k, k2, s),
                                  "%r and %r format alike" % (vs[0].v, vs[1].v), "")
        allst = [sig(n, b)[0] for b in styles.values()]
        rep.check(len(set(allst)) == len(allst), "number-option", "style", "two styles format alike", "")
        # an inherited option counts like an explicit one
    for w in ("FluentFloat",) if tier != "thorough" else ("FluentInt", "FluentFloat", "FluentDecimal"):
        res, exc = R.run(w, (), fmt=True)
        read = set()
        for st, v in res + exc:
            for t in list(st.facts) + [("x", st.ghost.get("sig"))]:
                for k, _ in opts:
                    if _contains(t, ("a", Sy(("in", "opt")), k)) or str(("a", ("in", "opt"), k)) in str(t):
                        read.add(k)
        for k, _ in opts:
            if k != "type":
                rep.check(k in read, "inherited-option", k, "is not looked at when a value carrying it is formatted", "")
    # dates
    dci, dopts = R.options(False)
    for n in ("datetime", "date"):
        plain, pe = sig(n, ())
        for k, ann in dopts:
            if k == "timeStyle" and n == "date":
                res, exc = R.run(n, ((k, K("short")),))
                rep.check(not res and bool(exc), "requires", "timeStyle for a plain date", "is accepted", "")
                continue
            vals, lit = legal(ann)
            vals = [v for v in vals if v.v is not None]
            if k == "timeZone":
                vals = [K("Europe/Paris"), K("Asia/Tokyo")]
            seen = {}
            for v in vals:
                res, exc = R.run(n, ((k, v),))
                rep.check(bool(res), "choices", "%s=%r" % (k, v.v), "is rejected", "")
                if not res:
                    continue
                warned = all(st.ghost.get("warned") for st, _ in res)
                if warned:
                    rep.check(True, "date-option", "%s (%s) warns" % (k, n), "", "")
                    rep.count("date options that warn")
                    continue
                rep.count("date options that are honoured")
                if k == "timeZone" and n == "date":
                    continue        # a date has no time zone
                g, e = sig(n, ((k, v),))
                twin = [w for w, h in seen.items() if h == g]
                rep.check(not twin and g != plain or v == K("medium") and k == "dateStyle" and not twin, "date-option",
                          "%s=%r (%s)" % (k, v.v, n), "formats like %s, and no warning is given" % (
                              repr(twin[0].v) if twin else "the default"), "")
                seen[v] = g
        # in combination
        if n == "datetime":
            imp = [("dateStyle", [K("long"), K("short")]), ("timeStyle", [K("long"), K("short")]),
                   ("timeZone", [K("Europe/Paris"), K("Asia/Tokyo")])]
            for k, vs in imp:
                for k2, vs2 in imp:
                    for k3, vs3 in imp:
                        if k in (k2, k3) or k2 > k3:
                            continue
                        ctx = ((k2, vs2[0]),) if k2 == k3 else ((k2, vs2[0]), (k3, vs3[0]))
                        a, b = sig(n, ctx + ((k, vs[0]),))[0], sig(n, ctx + ((k, vs[1]),))[0]
                        rep.check(a != b, "date-option", "%s with %s" % (k, ", ".join(x for x, _ in ctx)),
                                  "%r and %r format alike" % (vs[0].v, vs[1].v), "")
    # rejection
    for n in list(NATIVE) + list(WRAPPED):
        num = is_number(n)
        for k, _ in [("undeclared", 0)] + [(x, 1) for x, _ in (dopts if num else opts) if x not in [y for y, _ in (opts if num else dopts)]]:
            res, exc = R.run(n, ((k, K(1)),))
            rep.check(not res and bool(exc), "undeclared", "%s(%s=...)" % (n, k), "is accepted", "")
        for k, ann in (opts if num else dopts):
            vals, lit = legal(ann)
            if not lit or k == "timeStyle" and WRAPPED.get(n, n) == "date":
                continue
            res, exc = R.run(n, ((k, K("bogus")),))
            warned = bool(res) and all(st.ghost.get("warned") for st, _ in res)
            rep.check(not res or warned, "choices", "%s(%s='bogus')" % (n, k), "is accepted", "")
            for v in vals:
                kw = ((k, v),) + ((("currency", K("EUR")),) if v == K("currency") else ())
                res, exc = R.run(n, kw)
                rep.check(bool(res), "choices", "%s(%s=%r)" % (n, k, v.v), "is rejected", "")
        if num:
            res, exc = R.run(n, (("style", K("currency")), ("currency", NONE_)))
            rep.check(not res and bool(exc), "requires", "%s(style='currency') without currency" % n, "is accepted", "")
    for u in list(R.it.unsupported)[:3]:
        rep.note("imprecision: " + str(u)[:200])
    return rep
