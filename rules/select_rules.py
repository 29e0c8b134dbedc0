"""C26: select expressions, over every list of up to three variants and every kind of selector and key."""
from sa import join
from sa.project import AnalysisBroken
from sa.state import Fact, Inst, LRec
from sa.values import *  # noqa

from .report import Report
from .rt_common import Harness, RES, STR, SYN, TYPES, _contains, field_of, root_of

NUM = ("FluentInt", "FluentFloat", "FluentDecimal")
SELECTORS = NUM + ("FluentNone", "str", "FluentDate")
N = 3


def types_of(n):
    return [STR] if n == "str" else [(TYPES + "." + n, ())]


class SelHarness(Harness):
    sel = key = None

    def child(self, it, f, args, kw, st, node, fr):
        if self.compiling or self.sel is None:
            return Harness.child(self, it, f, args, kw, st, node, fr)
        r = root_of(f.t)
        fld = field_of(f.t)
        if r in self.vs:
            k = (fld, self.vs.index(r))
        elif r == ("in", "self") and fld == "selector":
            k = ("selector", -1)
        else:
            k = ("other:" + fld, -1)
        st.ghost[("kid",) + k] = min(st.ghost.get(("kid",) + k, 0) + 1, 2)
        st.ghost["order"] = st.ghost.get("order", ()) + (k,) if len(st.ghost.get("order", ())) < 20 else ("?",)
        types = None
        if k[0] == "selector":
            types = types_of(self.sel)
        elif k[0] == "key":
            types = types_of(self.key)
        return self.outcome(it, ("child", f), st, node, fr, types, raises=())

    def custom(self, it, f, args, kw, st, node, fr):
        if self.sel is None:
            return Harness.custom(self, it, f, args, kw, st, node, fr)
        kind = self.plural_kind(f.t)
        if kind is None:
            return self.outcome(it, ("custom", f), st, node, fr, raises=())
        a = args[0] if args else None
        t = ("plural", kind, a)
        st.ghost["plural"] = kind if st.ghost.get("plural") in (None, kind) else "both"
        st.facts.setdefault(t, Fact(frozenset([STR])))
        return [(st, Sy(t))]

    def plural_kind(self, t):
        names = strings(t)
        for kind, fields in (("ordinal", self.ordinal), ("plural", self.plural)):
            if names & fields:
                return kind
        return None


def strings(x):
    out = set()

    def walk(y):
        if isinstance(y, str):
            out.add(y)
        elif isinstance(y, (tuple, frozenset)):
            for z in y:
                walk(z)
        elif isinstance(y, V):
            for f in y.fields:
                walk(getattr(y, f))
    walk(x)
    return out


def c26(tier):
    rep = Report("C26")
    rep.rule("selector-once", "the selector is evaluated exactly once, before any key")
    rep.rule("one-value", "exactly one variant's value is evaluated and it is what the expression yields")
    rep.rule("first-match", "the value is that of the first variant whose key matches, every earlier key having been compared")
    rep.rule("default", "if no key matches, and only then, the value is that of the default variant")
    rep.rule("match-number", "a number and a numeric key are compared by equality")
    rep.rule("match-plural", "a number and an identifier key are compared by the locale's plural category, ordinal exactly if "
                             "the number's type option is ordinal")
    rep.rule("match-none", "a failed selector matches no key")
    rep.assumptions += ["exhaustive for expressions of up to %d variants; the scan treats variants alike" % N,
                        "one variant is the default (C06)"]
    H = SelHarness([])
    it = H.it
    H.discover()
    H.ordinal, H.plural = {"ordinal_form"}, {"plural_form"}

    H.ext_args = {}

    class Ext:
        always = False

        def on_opaque(self, interp, st, what, args, kw, node, fr):
            H.ext_args[("c", what, node._id, fr.path)] = (tuple(args), tuple(x for _, x in kw))
    it.observers = [Ext()]
    H.discover_bundle()
    it.observers = []
    roles(H)
    cm = H.compile_all()
    var = sorted(cm.get(SYN + ".Variant", ()))
    sel = sorted(cm.get(SYN + ".SelectExpression", ()))
    evs = {c.qual: c for c in H.evaluators()}
    sel = [evs[q] for q in sel if q in evs]
    if not sel:
        raise AnalysisBroken("no evaluator for select expressions")
    for ci in sel:
        for s in SELECTORS:
            for key in ("FluentInt", "FluentFloat", "str"):
                if tier != "thorough" and key == "FluentFloat" and s != "FluentFloat":
                    continue
                for n in (1, 2, N) if tier == "thorough" else (N,):
                    scenario(H, rep, ci, s, key, var, n)
    return rep


def roles(H):
    """Fields of the bundle that hold the plural rules."""
    for st, o, r in H.bundles:
        for n, v in r.f.items():
            names = strings(v) | strings(getattr(H, "ext_args", {}).get(getattr(v, "t", None), ()))
            if "ordinal_form" in names:
                H.ordinal = H.ordinal | {n}
            elif "plural_form" in names:
                H.plural = H.plural | {n}


def scenario(H, rep, ci, s, key, var, n):
    it = H.it
    H.sel, H.key = s, key
    H.vs = [("in", "v%d" % i) for i in range(n)]

    def setup(st, slf):
        items = []
        for i, t in enumerate(H.vs):
            st.facts[t] = Fact(frozenset((q, ()) for q in var), truth=True)
            # exactly one default
            items.append(Sy(t))
        la = ("o", ("root",), "variants")
        st.heap[la] = LRec(frozenset(), tuple(items), frozenset(), frozenset(), None, 0)
        st.heap[slf] = Inst(None, {"variants": Obj(la)})
    H.setup = setup
    join.KEYFACTS = lambda t: t[0] == "eq" or t[0] == "a" and t[2] == "default"
    try:
        res, exc = H.evaluate(ci)
    finally:
        H.sel = None
        H.setup = None
        join.KEYFACTS = None
    why = list(map(tuple, it.unsupported))
    it.unsupported.clear()
    if why:
        rep.note("imprecision (%s, %s): %s" % (s, key, str(why[:2])[:300]))
    und = bool(why) or s not in NUM + ("FluentNone",) and key != "str"
    tag = "%s selector, %s keys" % (s, "identifier" if key == "str" else key)
    rep.count("scenarios")
    rep.count("paths", len(res) + len(exc))
    for st, v in res:
        g = {k[1:]: x for k, x in st.ghost.items() if isinstance(k, tuple) and k[0] == "kid"}
        order = st.ghost.get("order", ())
        rep.check(g.get(("selector", -1)) == 1 and order[:1] == (("selector", -1),), "selector-once", ci.name,
                  "the selector is evaluated %s" % ("%d times" % g.get(("selector", -1), 0)), "", undecided=und)
        vals = [(i, x) for (f, i), x in g.items() if f == "value"]
        defaults = [truth(st, Sy(("a", Sy(t), "default"))) for t in H.vs]
        if defaults.count(True) > 1 or defaults.count(False) == n:
            continue        # not exactly one default
        rep.count("paths with one default")
        if len(vals) != 1 or vals[0][1] != 1:
            rep.check(False, "one-value", ci.name + " (%s)" % tag, "evaluates the values of %s variants" % (
                "no" if not vals else ", ".join("%d x variant %d" % (x, i + 1) for i, x in vals)), "",
                undecided=und or not vals and any(d is None for d in defaults))
            continue
        i = vals[0][0]
        ok = isinstance(v, Sy) and _contains(v.t, ("a", Sy(H.vs[i]), "value"))
        rep.check(ok, "one-value", ci.name, "yields %r, not the value" % (v,), "", undecided=und)
        m = [matched(H, rep, ci, st, j, s, key, tag, und) for j in range(n)]
        if s == "FluentNone":
            for j in range(n):
                rep.check(m[j] is not True, "match-none", ci.name, "a failed selector matches a key", "", undecided=und)
        looked = [("key", j) in g for j in range(n)]
        before = range(i if m[i] is True else n)
        rule = "first-match" if m[i] is True else "default"
        late = [j for j in before if j != i and m[j] is True]
        rep.check(not late, "first-match", "%s (%s)" % (ci.name, tag),
                  "variant %s matches, but the value of variant %d is taken" % (", ".join(str(j + 1) for j in late), i + 1), "",
                  undecided=und)
        if s != "FluentNone":
            skipped = [j for j in before if m[j] is None and not looked[j] and not touched(H, st, j)]
            rep.check(not skipped, rule, "%s (%s): keys compared first" % (ci.name, tag),
                      "the key of variant %s is never looked at" % ", ".join(str(j + 1) for j in skipped), "", undecided=und)
        if m[i] is not True:
            # chosen without a match: has to be the default
            d = defaults[i]
            unk = m[i] is None and (looked[i] or touched(H, st, i))
            rep.check(d is True, "default", "%s (%s): default chosen" % (ci.name, tag),
                      "variant %d is chosen although it neither matches nor is the default" % (i + 1), "",
                      undecided=und or unk or d is None)


def truth(st, v):
    f = st.fact(v.t)
    if f.const is not None:
        return bool(f.const.v)
    return f.truth


def touched(H, st, j):
    k = ("a", Sy(H.vs[j]), "key")
    return any(t[0] != "a" and _contains(t, k) for t in st.facts)


def matched(H, rep, ci, st, j, s, key, tag, und):
    """Does the key of variant j match, judging by the comparisons on the path?"""
    kt = ("a", Sy(H.vs[j]), "key")
    res = None
    for t, f in st.facts.items():
        if t[0] != "eq" or f.const is None and f.truth is None:
            continue
        sides = [x for x in t[1:3]]
        ks = [x for x in sides if _contains(x, kt)]
        if not ks:
            continue
        other = sides[1] if sides[0] is ks[0] else sides[0]
        is_sel = isinstance(other, Sy) and other.t[0] == "c" and _contains(other, ("child", Sy(("a", H.root_self, "selector"))))
        is_pl = isinstance(other, Sy) and other.t[0] == "plural"
        if not (is_sel or is_pl):
            continue
        res = truth(st, Sy(t))
        if s in NUM and key == "str":
            o = ordinal(H, st)
            a = other.t[2] if is_pl else None
            good = is_pl and isinstance(a, Sy) and _contains(a, ("child", Sy(("a", H.root_self, "selector"))))
            rep.check(good, "match-plural", "%s (%s)" % (ci.name, tag), "an identifier key is compared with %r" % (other,), "",
                      undecided=und)
            if good:
                rep.check(o is not None and (other.t[1] == "ordinal") is o, "match-plural", "%s (%s): category" % (ci.name, tag),
                          "the %s category is used for a number of type %s" % (
                              other.t[1], {True: "ordinal", False: "cardinal", None: "that is never looked at"}[o]), "",
                          undecided=und or o is None and reads_type(H, st))
        elif s in NUM:
            rep.check(is_sel, "match-number", "%s (%s)" % (ci.name, tag), "a numeric key is compared with %r" % (other,), "",
                      undecided=und)
    return res


def reads_type(H, st):
    return any(t[0] == "a" and t[2] == "type" or t[0] == "eq" and "ordinal" in strings(t) for t in st.facts)


def ordinal(H, st):
    for t, f in st.facts.items():
        if t[0] == "a" and t[2] == "type" and _contains(t, ("child", Sy(("a", H.root_self, "selector")))):
            if f.const == K("ordinal"):
                return True
            if K("ordinal") in f.ne or f.const is not None:
                return False
    return None
