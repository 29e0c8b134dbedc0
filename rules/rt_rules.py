"""Rules for the runtime evaluators (C20-C26, C34, C35): one modular analysis, one report per property."""
import ast as A

from sa.charset import CS
from sa.join import as_lin
from sa.linear import lin
from sa.project import AnalysisBroken
from sa.state import DRec, Fact, Inst, LRec, SRec
from sa.strs import atoms_of
from sa.values import *  # noqa

from .report import Report, snippet, where
from .rt_common import BUNDLE, Harness, NONE_T, STR, SYN, TYPES, _contains, field_of, root_of

FSI, PDI = "\u2068", "\u2069"
# any finite limit counts as a limit
PARTS_BOUND = 100000
CHARS_BOUND = 1000000
REFS = ("MessageReference", "TermReference", "VariableReference", "FunctionReference", "SelectExpression")
CYC = "FluentCyclicReferenceError"


class RTObs:
    always = False

    def __init__(self, H, reps):
        self.H = H
        self.reps = reps
        self.on = False
        self.mode = ""
        self.deferred, self.catches = [], []

    def start_pass(self, it, n):
        pass

    defer = False

    def flush(self):
        """Obligations on exits by exception matter only if an evaluator goes on after an exception of a child."""
        for prop, ok, rule, con, msg, w, und in self.deferred:
            if not self.catches:
                ok = True
            self.reps[prop].check(ok, rule, con, msg, w, undecided=und)
        for r in self.reps.values():
            r.count("evaluators that go on after an exception of a child", len(self.catches))

    def chk(self, prop, ok, rule, con, msg, node=None, fr=None, und=False):
        r = self.reps.get(prop)
        if self.defer and r is not None and self.on:
            self.deferred.append((prop, ok, rule, con, msg, where(node, fr) if node is not None else "", und))
            return
        if r is not None and self.on:
            r.check(ok, rule, con, msg, where(node, fr) if node is not None else "", undecided=und)

    def count(self, prop, k):
        r = self.reps.get(prop)
        if r is not None and self.on:
            r.count(k)

    # ---------------------------------------------------------------- helpers
    @property
    def name(self):
        return self.H.ci.name

    def syn(self):
        """Names of the syntax classes the evaluator stands for."""
        return {c.name for c in self.H.ci.mro() if getattr(getattr(c, "mod", None), "name", "") == SYN}

    def is_error_list(self, v):
        return v in self.H.start_errors

    # ---------------------------------------------------------------- events
    def on_append(self, it, st, o, v, node, fr):
        if self.mode == "eval" and self.is_error_list(o):
            st.ghost["reported"] = True
            if isinstance(v, Obj) and isinstance(st.heap.get(v.a), Inst) and st.heap[v.a].ci is not None:
                st.ghost["rep:" + st.heap[v.a].ci.name] = True
                self.chk("C21", True, "error-kind", "%s appended to the error list" % st.heap[v.a].ci.name, "", node, fr)

    def format_trace(self, it, st, b, what, node, fr):
        if not isinstance(b, Sy) or not it.final:
            return
        r = root_of(b.t)
        if r[0] == "in":
            self.chk("C34", False, "no-trace", "%s by format_pattern: %s" % (
                {"args": "the caller's arguments", "pattern": "the pattern", "bundle": "the bundle"}.get(r[1], r[1]), what),
                "this outlives the format call", node, fr)

    def on_mutate(self, it, st, base, kind, detail, node, fr):
        if self.mode == "format":
            return self.format_trace(it, st, base, kind, node, fr)
        if self.mode != "eval":
            return
        H = self.H
        if self.is_error_list(base):
            if kind in ("append", "extend", "insert", "+=", "iadd", "__iadd__"):
                st.ghost["reported"] = True
            else:
                self.chk("C21", False, "errors-kept", "%s of the error list in %s" % (kind, self.name),
                         "errors already reported may be lost", node, fr)
            return
        if base in H.start_active:
            return
        if isinstance(base, Sy):
            self.trace(st, base, "%s is changed by %s" % (self.describe(base), kind), node, fr)

    def on_dictput(self, it, st, base, *a):
        node, fr = a[-2], a[-1]
        if self.mode == "format":
            return self.format_trace(it, st, base, "an entry is set", node, fr)
        if self.mode == "eval" and isinstance(base, Sy):
            self.trace(st, base, "%s gets an entry" % self.describe(base), node, fr, put=a)

    def on_setattr(self, it, st, b, name, v, node, fr):
        if self.mode == "format":
            return self.format_trace(it, st, b, "attribute %s is set" % name, node, fr)
        if self.mode != "eval":
            return
        H = self.H
        if isinstance(b, Sy):
            self.trace(st, b, "attribute %s of %s is set" % (name, self.describe(b)), node, fr)
        elif isinstance(b, Obj) and b == H.env:
            for i, p in enumerate(H.p_counts):
                if p == (name,):
                    old = as_lin(st.ghost.get(("cnt", i), K(0))) if False else None

    def on_global_write(self, it, *a):
        node, fr = a[-2], a[-1]
        self.chk("C34", False, "no-trace", "module data written in %s" % getattr(self.H.ci, "name", "?"),
                 "a module-level object is changed while formatting", node, fr)

    def on_static_write(self, it, *a):
        node, fr = a[-2], a[-1]
        self.chk("C34", False, "no-trace", "class or module data written while evaluating %s" % self.name,
                 "an object shared by all calls is changed while formatting", node, fr)

    def describe(self, b):
        r = root_of(b.t)
        f = field_of(b.t)
        if r == ("in", "self"):
            return "the compiled node (%s)" % (f or "itself")
        if r[:1] == ("in",) and str(r[1]).startswith("env"):
            return "the %s" % (f or r[1].replace("env.", "environment's "))
        return "an object from outside the call"

    def trace(self, st, b, msg, node, fr, put=None):
        """Something that outlives the call is changed."""
        H = self.H
        r = root_of(b.t)
        con = "%s while evaluating %s" % (msg, self.name)
        if r in (("c",), ("?",)):
            return
        if r[0] == "in" and str(r[1]).startswith("env.") and r != ("in", "env" + "".join("." + n for n in H.p_bundle[0])):
            p = tuple(r[1].split(".")[1:])
            if p in H.p_args and b in H.start_args:
                self.chk("C34", False, "no-trace", con, "the arguments are changed in place", node, fr)
                self.chk("C24", False, "restored", "arguments in %s" % self.name, "the caller's arguments are changed in place",
                         node, fr)
            return
        if r[0] == "in" and H.p_bundle and r == ("in", "env" + "".join("." + n for n in H.p_bundle[0])):
            fld = field_of(b.t).split(".")[0]
            if fld and fld in H.cache_fields:
                self.chk("C34", True, "no-trace", "cache %s of the bundle" % fld, "")
                return
        self.chk("C34", False, "no-trace", con, "this outlives the format call", node, fr)

    # ---------------------------------------------------------------- child evaluation
    def on_child(self, it, st, f, args, kw, node, fr):
        if self.mode != "eval":
            return
        H = self.H
        self.count("C22", "child evaluations")
        own = root_of(f.t) == ("in", "self")
        fld = field_of(f.t)
        con = "%s of %s" % (fld if own else "referenced entry", self.name)
        env = args[0] if args else None
        if not (isinstance(env, Obj) and H.is_env(st, env)):
            for p in ("C22", "C23", "C24", "C21"):
                self.chk(p, False, "environment", con, "evaluated without the environment of the call", node, fr, und=True)
            return
        # C21/C22/C23: the same bookkeeping all the way down
        for i, p in enumerate(H.p_errors):
            self.chk("C21", H.read(st, env, p) == H.start_errors[i], "errors-shared", con,
                     "errors of the child go to another list", node, fr)
        for i, p in enumerate(H.p_counts):
            c = as_lin(H.read(st, env, p))
            ok = c is not None and st.entails(c - H.start_counts[i])
            self.chk("C23", ok and env == H.env, "count-kept", con,
                     "the child counts from %s" % ("a copy of the environment" if env != H.env else "a smaller value"),
                     node, fr, und=c is None)
        for i, p in enumerate(H.p_active):
            s = H.read(st, env, p)
            m = H.member(st, H.other, s)
            self.chk("C22", m is True, "active-kept", con,
                     "an entry being evaluated further up is no longer marked as active", node, fr, und=m is None)
            if self.guarded:
                m = H.member(st, H.root_self, s)
                if self.active:
                    self.chk("C22", False, "guard", con, "evaluated although the pattern is already being evaluated",
                             node, fr)
                else:
                    self.chk("C22", m is True, "guard", con, "evaluated without marking the pattern as active", node, fr,
                             und=m is None)
        if not H.p_active and self.guarded:
            self.chk("C22", False, "guard", con, "nothing records which patterns are active", node, fr)
        # C23: limit before expansion
        if self.guarded and H.p_counts and not self.active:
            n = self.parts(it, st, f)
            ok = any(st.entails(lin(PARTS_BOUND) - c - n) for c in H.start_counts)
            self.chk("C23", ok, "limit-before-expansion", con,
                     "expanded without comparing the number of parts with a limit first", node, fr)
        elif self.guarded and not self.active:
            self.chk("C23", False, "limit-before-expansion", con, "the environment does not count parts", node, fr)
        # C24: what a term sees
        argv = [H.read(st, env, p) for p in H.p_args]
        flags = [H.read(st, env, p) for p in H.p_flags]
        if not own and "TermReference" in self.syn():
            for v in argv:
                r = st.heap.get(v.a) if isinstance(v, Obj) else None
                if v in H.start_args:
                    self.chk("C24", False, "term-arguments", con, "the term sees the caller's arguments", node, fr)
                elif isinstance(r, DRec):
                    ok = self.only_named(r, H)
                    self.chk("C24", ok, "term-arguments", con,
                             "the term's arguments are not just the named arguments of the reference", node, fr)
                else:
                    self.chk("C24", False, "term-arguments", con, "arguments of unknown origin: %r" % (v,), node, fr, und=True)
            for v in flags:
                t = self.truth(st, v)
                self.chk("C24", t is False, "term-missing-argument", con,
                         "an argument the term was not given is reported as an error", node, fr, und=not isinstance(v, (K, Sy)))
        else:
            ok = argv == H.start_args and flags == H.start_flags
            if own and "TermReference" in self.syn():
                return
            self.chk("C24", ok, "arguments-kept", con, "evaluated with other arguments than the enclosing pattern", node, fr)

    def parts(self, it, st, f):
        """Number of parts of the pattern the child belongs to."""
        t = f.t
        while isinstance(t, tuple) and t and t[0] == "a" and isinstance(t[1], Sy):
            if st.fact(t[1].t).types and any(n == "builtins.list" for n, _ in st.fact(t[1].t).types):
                break
            t = t[1].t
        if isinstance(t, tuple) and t and t[0] in ("e", "prev", "i"):
            src = t[1]
            v = src if isinstance(src, Sy) else Sy(src)
            keep = st.facts.get(v.t)
            r = it.b_len([v], [], st.fork(), _N, None)
            if len(r) == 1:
                e = as_lin(r[0][1])
                if e is not None:
                    return e
        return lin(1)

    def truth(self, st, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.const is not None:
                return bool(f.const.v)
            return f.truth
        return None

    def only_named(self, r, H):
        if r.org is not None:
            return False
        for k in list(r.restk or ()) + [k for k, _ in r.items]:
            if any(_contains(k, a.t) for a in H.start_args if isinstance(a, Sy)):
                return False
        for v in list(r.rest or ()) + [v for _, v in r.items]:
            if any(v == a or (isinstance(v, Sy) and root_of(v.t) == a.t) for a in H.start_args if isinstance(a, Sy)):
                return False
        return True

    def on_construct(self, it, st, o, ci, node, fr, *a):
        if self.mode == "eval" and ci is not None and ci.name == CYC and not self.active and self.guarded:
            self.chk("C22", False, "only-real-cycles", "cyclic reference error in %s" % self.name,
                     "reported although the pattern is not being evaluated", node, fr)

    on_alloc = None


del RTObs.on_alloc


class _N:
    _id = "rule"
    lineno = 0
    col_offset = 0


def opaque_value(v):
    """Result of a child, of a custom function or an argument."""
    return isinstance(v, Sy) and v.t[0] == "c"


def analyse(props, tier="quick"):
    reps = {p: Report(p) for p in props}
    H = Harness([])
    ob = RTObs(H, reps)
    it = H.it
    errs = []

    def prec(what):
        if it.unsupported:
            why = "; ".join("%s at %s" % (k[1], k[0]) for k in sorted(map(tuple, it.unsupported)))[:600]
            it.unsupported.clear()
            for r in reps.values():
                r.note("imprecision in %s: %s" % (what, why))
            return False
        return True

    # ---- format_pattern
    ob.mode, ob.on = "format", True
    it.observers = [ob]
    H.ci = it.find(BUNDLE + ":FluentBundle").ci
    fres, fexc = H.discover()
    it.observers = []
    ob.mode, ob.on = "", False
    ok_fp = prec("format_pattern")
    rules_format(H, reps, fres, fexc)
    H.discover_bundle()
    prec("FluentBundle()")
    if H.compiler_ci is None:
        raise AnalysisBroken("the bundle holds no compiler")
    H.cache_fields = cache_fields(H)
    cmap = H.compile_all()
    ok_c = prec("the compiler")
    rules_compile(H, reps, ok_c)
    it.observers = [ob]
    it.ghosters = [o for o in it.observers if hasattr(o, "loop_ghost")]
    evs = H.evaluators()
    for r in reps.values():
        r.count("evaluators analysed", len(evs))
    pat = cmap.get(SYN + ".Pattern", set())
    if not pat:
        raise AnalysisBroken("the compiler gives nothing for a pattern")
    for ci in evs:
        kids = []

        class Probe:
            always = False

            def on_child(self, it, st, f, args, kw, node, fr):
                kids.append(f)
        it.observers = [Probe()]
        H.evaluate(ci)
        prec(ci.name)
        it.observers = [ob]
        # a pattern that evaluates anything must guard itself
        ob.guarded = ci.qual in pat and bool(kids)
        for active in (False, True):
            ob.active = active
            ob.mode = "eval"
            before = {p: {k: list(v) for k, v in r.obl.items()} for p, r in reps.items()}
            ob.on = True
            res, exc = H.evaluate(ci, active)
            rules_exit(H, ob, ci, res, exc, active, bool(kids), cmap)
            ob.on = False
            if not prec(ci.name):
                for p, r in reps.items():
                    for k, v in r.obl.items():
                        if v[0] == "violated" and before[p].get(k, [""])[0] != "violated":
                            v[0] = "undecided"
                            v[2] = "analysis imprecise here: " + v[2]
            if not ob.guarded:
                break
    ob.flush()
    for r in reps.values():
        r.assumptions += ["formatting a Fluent type value for a locale gives a str or raises an Exception",
                          "an evaluator of a child node behaves as these rules establish for every evaluator"]
    return reps


def cache_fields(H):
    """Attributes of a bundle that hold what was compiled (filled by the lookup, not by add_resource)."""
    out = set()
    cls = H.it.find(BUNDLE + ":FluentBundle").ci
    comp = {n for st, o, r in H.bundles for n, v in r.f.items()
            if isinstance(v, Obj) and isinstance(H.it.rec(st, v.a), Inst) and H.it.rec(st, v.a).ci is H.compiler_ci}
    for n, f in cls.ns.items():
        if isinstance(f, Fn):
            names = {x.attr for x in A.walk(f.node) if isinstance(x, A.Attribute)}
            if names & comp and n != "__init__":
                for x in A.walk(f.node):
                    if isinstance(x, A.Assign):
                        for t in x.targets:
                            if isinstance(t, A.Subscript) and isinstance(t.value, A.Attribute):
                                out.add(t.value.attr)
                            elif isinstance(t, A.Subscript) and isinstance(t.value, A.Name):
                                out |= {y.value.attr for y in A.walk(f.node) if isinstance(y, A.Assign)
                                        and isinstance(y.value, A.Attribute)
                                        and any(isinstance(z, A.Name) and z.id == t.value.id for z in y.targets)}
                    if isinstance(x, A.Call) and isinstance(x.func, A.Attribute) and x.func.attr == "setdefault" \
                            and isinstance(x.func.value, A.Attribute):
                        out.add(x.func.value.attr)
    return out


# ---------------------------------------------------------------------- format_pattern
def rules_format(H, reps, res, exc):
    it = H.it
    c20, c21, c34 = reps.get("C20"), reps.get("C21"), reps.get("C34")
    pv = lambda v: isinstance(v, Sy) and _contains(v.t, ("child", H.pattern))
    if c20 is not None:
        c20.rule("format-escape", "no exception of the analysed call leaves format_pattern")
        c20.rule("format-result", "format_pattern returns a pair of the pattern's result, or a fallback string, and the errors")
        con = "FluentBundle.format_pattern"
        for st, v in exc:
            if invariant(st):
                c20.count("escapes excluded: value with options no constructor accepts")
                continue
            last = [x for x in st.trail if "raises" in str(x)][-1:]
            c20.check(False, "format-escape", con + " (%s)" % it.show_exc(st, v), "%s escapes" % it.show_exc(st, v),
                      str(last[0][0]) if last else "")
        c20.check(True, "format-escape", con)
        for st, v in res:
            ok = isinstance(v, Tup) and len(v.items) == 2
            c20.check(ok, "format-result", con + " returns a pair", "returns %r" % (v,), undecided=not isinstance(v, (K, Tup)))
            if ok:
                a, b = v.items
                s = pv(a) or (isinstance(a, K) and isinstance(a.v, str)) or isinstance(a, (St, Ch))
                c20.check(s, "format-result", con + " result string", "the result may be %r" % (a,),
                          undecided=isinstance(a, (Sy, Top)))
                lst = isinstance(b, Obj) and isinstance(st.heap.get(b.a), LRec)
                c20.check(lst, "format-result", con + " error list", "the errors may be %r" % (b,),
                          undecided=isinstance(b, (Sy, Top)))
    if c21 is not None:
        c21.rule("fallback-reported", "a format call whose pattern fails returns the error")
        for st, v in res:
            if isinstance(v, Tup) and len(v.items) == 2 and not pv(v.items[0]):
                b = v.items[1]
                r = st.heap.get(b.a) if isinstance(b, Obj) else None
                ok = isinstance(r, LRec) and r.minlen() > 0
                c21.check(ok, "fallback-reported", "format_pattern replaces the result", "the error is not in the list",
                          undecided=r is None)
    st0, env = H.captured
    if c34 is not None:
        c34.rule("fresh-call", "every format call starts with its own, empty error list and bookkeeping")
        for p in H.p_errors + H.p_active:
            v = H.read(st0, env, p)
            r = st0.heap.get(v.a) if isinstance(v, Obj) else None
            ok = isinstance(r, LRec) and not r.tail and not r.pre and r.org is None or \
                isinstance(r, SRec) and not r.items and r.rest is None and r.org is None
            c34.check(ok, "fresh-call", "environment field " + ".".join(p), "does not start empty", undecided=r is None)
        for p in H.p_counts:
            v = H.read(st0, env, p)
            c34.check(v == K(0), "fresh-call", "environment field " + ".".join(p), "starts at %r" % (v,))
        c34.check(bool(H.p_errors), "fresh-call", "error list", "the list returned is not the one errors are added to")
    if c21 is not None:
        c21.rule("errors-shared", "the list evaluators add errors to is the list format_pattern returns")
        c21.check(bool(H.p_errors), "errors-shared", "format_pattern",
                  "the list returned is not the one the environment holds")


def invariant(st):
    """A state in which an already formatted value has options its constructor rejects."""
    for t, f in st.facts.items():
        if t[0] == "a" and len(t) == 3 and t[2] == "currency" and f.types == frozenset([NONE_T]):
            return True
        if f.const == NONE_ and t[0] == "a" and len(t) == 3 and t[2] == "currency":
            return True
        if t[0] == "is" and f.const == TRUE and "currency" in repr(t):
            return True
    return any("currency" in repr(t) for t in st.facts)


# ---------------------------------------------------------------------- compiler
def rules_compile(H, reps, precise):
    it = H.it
    r = reps.get("C35")
    if r is None:
        return
    r.rule("compile-class", "compiling a node the grammar allows in an entry gives a node of the runtime")
    r.rule("compile-fields", "every content-bearing field of a node is handed on, compiled, in its own place")
    r.rule("compile-total", "compiling raises no exception")
    r.rule("evaluator", "every node that is evaluated has an evaluator")
    ent = entry_classes(H)
    evq = {c.qual for c in H.evaluators()}
    for q in sorted(ent):
        ci = it.classes[q]
        res, exc = H.compile(q)
        ok = precise and not it.unsupported
        it.unsupported.clear()
        real = [(st, v) for st, v in exc if not infeasible(st, v)]
        r.check(not real, "compile-total", ci.name, "raises %s" % (it.show_exc(*real[0]) if real else ""),
                undecided=not ok or all(_from_child(v) for _, v in real))
        for st, v in res:
            qs = set()
            if isinstance(v, Obj):
                qs = {st.heap[v.a].ci.qual}
            elif isinstance(v, Sy):
                ty = st.fact(v.t).types
                qs = {n for n, _ in ty} if ty else set()
            bad = [x for x in qs if not x.startswith("fluent.runtime")]
            r.check(not bad and bool(qs), "compile-class", ci.name,
                    "stays %s" % ", ".join(bad), undecided=not ok or not qs)
            if isinstance(v, Obj):
                fields(H, r, ci, st, v, ok)
    for q in sorted(must_evaluate(H)):
        for t in sorted(H.comp_map.get(q, ())):
            r.check(t in evq, "evaluator", "%s (compiled %s)" % (t.split(".")[-1], q.split(".")[-1]),
                    "the class has no __call__ of its own and would not be evaluated")


def infeasible(st, v):
    # element 0 of a list whose length was compared with 1
    return isinstance(v, Ex) and v.q.endswith("IndexError") and isinstance(v.args[0] if v.args else None, K)


def _from_child(v):
    return isinstance(v, Ex) and len(v.args) == 1 and isinstance(v.args[0], Sy) and v.args[0].t[0] == "exc"


def entry_classes(H):
    """Syntax classes that can occur in a message or term, by the declared field types."""
    it = H.it
    out = set()
    todo = [SYN + ".Message", SYN + ".Term"]
    while todo:
        q = todo.pop()
        if q in out:
            continue
        out.add(q)
        ci = it.classes[q]
        fs = []
        for c in ci.mro():
            if hasattr(c, "ns"):
                ini = c.ns.get("__init__")
                if isinstance(ini, Fn):
                    a = ini.node.args
                    fs += [x.arg for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs]
        for n in fs:
            if n in ("comment", "span", "annotations"):
                continue
            for t in flat(it.field_types(q, n)):
                if H.project_node(t):
                    todo += [ci.qual for ci in H.leafs if H.is_sub(ci.qual, it.classes[t])]
    return {q for q in out if q in {c.qual for c in H.leafs}}


def flat(types):
    out = set()
    for n, args in types or ():
        out.add(n)
        for a in args or ():
            if isinstance(a, frozenset):
                out |= flat(a)
    return out


def must_evaluate(H):
    names = ("Pattern", "TextElement", "Placeable", "StringLiteral", "NumberLiteral", "MessageReference", "TermReference",
             "VariableReference", "FunctionReference", "SelectExpression", "Identifier")
    return {SYN + "." + n for n in names if SYN + "." + n in H.it.classes}


def fields(H, r, ci, st, v, ok):
    rec = st.heap[v.a]
    same = rec.ci.name == ci.name
    for n, src in H.node_rec.f.items():
        if n in ("span", "comment") or n.startswith("%"):
            continue
        con = "%s.%s" % (ci.name, n)
        want = Sy(("comp", src))
        got = rec.f.get(n)
        if same and got is not None:
            if got in (want, src):
                r.check(True, "compile-fields", con)
                continue
            if got == NONE_ and st.fact(src.t).types is not None and NONE_T in st.fact(src.t).types:
                r.check(True, "compile-fields", con)
                continue
        # handed on in another shape: somewhere in the result
        hit = any(_contains(x, src.t) or uses(st, x, src.t) for k, x in rec.f.items() if not k.startswith("%"))
        if not hit and truthless(st, src, want):
            hit = True
        if same and got is not None and isinstance(got, Obj) and isinstance(st.heap.get(got.a), DRec):
            d = st.heap[got.a]
            if not hit:
                hit = (d.rest is None or not d.rest) and not d.items
        r.check(hit, "compile-fields", con, "is not part of the compiled node", undecided=not ok or not same)


def truthless(st, *vs):
    return any(isinstance(v, Sy) and (st.fact(v.t).truth is False or st.fact(v.t).types == frozenset([NONE_T])) for v in vs)


def uses(st, x, t, seen=None):
    seen = seen or set()
    if _contains(x, t):
        return True
    if isinstance(x, Obj) and x.a not in seen:
        seen.add(x.a)
        r = st.heap.get(x.a)
        if isinstance(r, Inst):
            return any(uses(st, y, t, seen) for y in r.f.values()) or r.nt is not None and _contains(r.nt, t)
        if isinstance(r, LRec):
            return _contains(r.org, t) or any(uses(st, y, t, seen) for y in r.elems())
        if isinstance(r, DRec):
            return _contains(r.org, t) or any(uses(st, y, t, seen) for y in list(r.rest or ()) + [w for _, w in r.items])
    return False


# ---------------------------------------------------------------------- evaluators
def rules_exit(H, ob, ci, res, exc, active, kids, cmap):
    it = H.it
    reps = ob.reps
    pat = cmap.get(SYN + ".Pattern", set())
    texts(reps)
    name = ci.name
    if any(st.ghost.get("craised") for st, v in res):
        ob.catches.append(name)
    for what, outs in (("returns", res), ("raises", exc)):
        ob.defer = what == "raises"
        for st, v in outs:
            # C22: the marking is undone
            for i, p in enumerate(H.p_active):
                s = H.read(st, H.env, p)
                m = H.member(st, H.root_self, s)
                want = bool(active)
                ob.chk("C22", m is want, "unmarked", "%s when it %s" % (name, what),
                       "the pattern %s active" % ("stays" if not active else "is no longer"), ci.node, None, und=m is None)
                m = H.member(st, H.other, s)
                ob.chk("C22", m is True, "active-kept", "%s when it %s" % (name, what),
                       "another active pattern is no longer marked", ci.node, None, und=m is None)
            # C24: arguments restored
            ok = [H.read(st, H.env, p) for p in H.p_args] == H.start_args and \
                [H.read(st, H.env, p) for p in H.p_flags] == H.start_flags
            ob.chk("C24", ok, "restored", "%s when it %s" % (name, what),
                   "the arguments in force before are not in force afterwards", ci.node, None)
            for i, p in enumerate(H.p_counts):
                c = as_lin(H.read(st, H.env, p))
                ob.chk("C23", c is not None and st.entails(c - H.start_counts[i]), "never-reset",
                       "%s when it %s" % (name, what), "the count of parts is lower than before", ci.node, None, und=c is None)
            for i, p in enumerate(H.p_errors):
                ob.chk("C21", H.read(st, H.env, p) == H.start_errors[i], "errors-kept", "error list after " + name,
                       "the environment holds another error list", ci.node, None)
    ob.defer = False
    for st, v in res:
        # C23: what was expanded was counted
        if ob.guarded and not active and H.p_counts and any(k[0] == "n" for k in st.ghost if isinstance(k, tuple)):
            ln = list_len(H, st, ci)
            if ln is None:
                ok = any(st.entails(as_lin(H.read(st, H.env, p)) - H.start_counts[i] - 1)
                         for i, p in enumerate(H.p_counts) if as_lin(H.read(st, H.env, p)) is not None)
                ob.chk("C23", ok, "counted", name, "its parts are expanded without being counted", ci.node, None)
            if ln is not None:
                ok = any(st.entails(as_lin(H.read(st, H.env, p)) - H.start_counts[i] - ln)
                         for i, p in enumerate(H.p_counts) if as_lin(H.read(st, H.env, p)) is not None)
                ob.chk("C23", ok, "counted", name + " (every part)", "fewer parts are counted than expanded", ci.node, None)
        # C21
        none = is_none(H, st, v)
        rep = st.ghost.get("reported") or any(ob.truth(st, f) is False for f in H.start_flags)
        if none:
            ob.chk("C21", bool(rep), "fallback-reported", "fallback of " + name, "a fallback is returned and no error reported",
                   ci.node, None)
        elif ob.syn() & set(REFS):
            good = value_of(H, st, v)
            if good is True:
                ob.chk("C21", True, "fallback-reported", "value of " + name, "")
            else:
                ob.chk("C21", bool(rep), "fallback-reported", "value of " + name,
                       "%r stands for the value and no error is reported" % (v,), ci.node, None,
                       und=good is None)
        if ob.guarded and active:
            ob.chk("C22", bool(st.ghost.get("rep:" + CYC)), "cycle-reported", name,
                   "a cycle is cut off without a cyclic reference error", ci.node, None,
                   und=bool(st.ghost.get("reported")))
        # C20
        if ci.qual in pat:
            s = is_str_val(st, v)
            if none and active:
                s = True
            ob.chk("C20", s is True, "pattern-string", name, "a pattern may give %r, not a string" % (v,), ci.node, None,
                   und=s is None)
        rules_isolation(H, ob, ci, st, v, cmap, active)
    for st, v in exc:
        q = v.q if isinstance(v, Ex) else None
        if q is not None:
            from sa.project import ext_issub
            ok = ext_issub(q, "builtins.Exception")
            ob.chk("C20", ok, "ordinary-exception", name, "%s is not an Exception" % q, ci.node, None)


def list_len(H, st, ci):
    """The number of elements of the list the evaluator walks over."""
    for t, f in st.facts.items():
        if t[0] == "a" and t[1] == H.root_self and f.types is not None and all(n == "builtins.list" for n, _ in f.types):
            if any(isinstance(k, tuple) and k[0] == "n" and k[1].split(".")[0] == t[2] for k in st.ghost):
                r = H.it.b_len([Sy(t)], [], st.fork(), _N, None)
                return as_lin(r[0][1]) if len(r) == 1 else None
    return None


def is_none(H, st, v):
    return isinstance(v, Obj) and isinstance(st.heap.get(v.a), Inst) and st.heap[v.a].ci is not None \
        and H.is_sub(st.heap[v.a].ci.qual, H.fluentnone)


def is_str_val(st, v):
    if isinstance(v, (St, Ch, Src)) or (isinstance(v, K) and isinstance(v.v, str)):
        return True
    if isinstance(v, K):
        return False
    if isinstance(v, Sy):
        ty = st.fact(v.t).types
        if ty is not None:
            return True if all(n == "builtins.str" for n, _ in ty) else False
        return None
    if isinstance(v, Obj):
        return False
    return None


def value_of(H, st, v):
    """Is it the value that was asked for?"""
    if opaque_value(v):
        return True
    if isinstance(v, Sy):
        for a in H.start_args:
            if isinstance(a, Sy) and v.t[0] == "i" and v.t[1] == a:
                return True
        return None
    if isinstance(v, (K, St, Ch, Obj)):
        return False
    return None


def rules_isolation(H, ob, ci, st, v, cmap, active):
    it = H.it
    if active:
        return
    name = ci.name
    own = ob.syn()
    at = atoms_of(v, st) if isinstance(v, (K, St, Ch)) and is_str_val(st, v) else None
    isolating = ci.qual in cmap.get(SYN + ".Placeable", ()) and "StringLiteral" not in own and "TextElement" not in own
    kids = any(isinstance(k, tuple) and k[0] == "n" for k in st.ghost)
    iso = None
    for p in H.p_bundle:
        b = H.read(st, H.env, p)
        if isinstance(b, Sy):
            iso = ob.truth(st, Sy(("a", b, "use_isolating")))
    if at is None:
        if isolating and kids and isinstance(v, Sy):
            ob.chk("C25", iso is False, "isolated", name, "the value is returned without isolation while isolation is on",
                   ci.node, None)
        return
    lits = "".join(a[1] if a[0] == "l" else "\0" for a in flat_atoms(at))
    marks = lits.count(FSI) + lits.count(PDI)
    if isolating and kids:
        if iso is True:
            ok = lits.startswith(FSI) and lits.endswith(PDI) and marks == 2 and "\0" in lits
            ob.chk("C25", ok, "isolated", name + " with isolation on", "gives %r around the value" % lits, ci.node, None)
        elif iso is False:
            ob.chk("C25", marks == 0, "not-isolated", name + " with isolation off", "gives %r" % lits, ci.node, None)
        else:
            ob.chk("C25", False, "isolated", name, "does not depend on whether isolation is on (%r)" % lits, ci.node, None)
    else:
        ob.chk("C25", marks == 0, "not-isolated", name, "adds isolation marks: %r" % lits, ci.node, None)


def flat_atoms(at):
    for a in at:
        if a[0] == "*":
            for alt in a[1]:
                yield from flat_atoms(alt)
        else:
            yield a


def texts(reps):
    T = {
        "C20": {"pattern-string": "what a pattern evaluates to is a string",
                "ordinary-exception": "evaluators raise subclasses of Exception only"},
        "C21": {"fallback-reported": "every path that ends in a fallback appends an error (or the argument is one a term was "
                                     "not given)",
                "errors-shared": "children report to the list of the call", "errors-kept": "reported errors are never removed",
                "error-kind": "errors appended are exceptions", "environment": "children are evaluated in an environment"},
        "C22": {"guard": "a pattern evaluates its children only while it is marked active, and not if it was already",
                "unmarked": "on every exit a pattern is marked exactly if it was before",
                "active-kept": "marks of other patterns survive", "cycle-reported": "cutting off a cycle reports it",
                "only-real-cycles": "a cycle is reported only if the pattern is active",
                "environment": "children are evaluated in an environment"},
        "C23": {"limit-before-expansion": "parts already counted plus parts to expand are within a constant limit before a "
                                          "child is evaluated",
                "counted": "on normal exit the parts expanded have been added to the count",
                "count-kept": "children continue the count", "never-reset": "the count never decreases",
                "environment": "children are evaluated in an environment"},
        "C24": {"term-arguments": "a term is evaluated with the named arguments of its reference only",
                "term-missing-argument": "missing term arguments are not errors",
                "arguments-kept": "everything else is evaluated with the arguments in force",
                "restored": "arguments are restored on every exit", "environment": "children are evaluated in an environment"},
        "C25": {"isolated": "with isolation on the placeable's value is between one FSI and one PDI",
                "not-isolated": "no marks are added otherwise"},
        "C34": {"no-trace": "evaluation changes nothing that outlives the call except the cache of compiled entries"},
    }
    for p, d in T.items():
        if p in reps:
            for k, v in d.items():
                reps[p].rules.setdefault(k, v)


def _one(prop, tier):
    return analyse([prop], tier)[prop]


def c20(tier):
    return _one("C20", tier)


def c21(tier):
    return _one("C21", tier)


def c22(tier):
    return _one("C22", tier)


def c23(tier):
    return _one("C23", tier)


def c24(tier):
    return _one("C24", tier)


def c25(tier):
    return _one("C25", tier)


def c34(tier):
    return _one("C34", tier)


def c35(tier):
    return _one("C35", tier)
