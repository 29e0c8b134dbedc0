"""C27, C28: every abstract history of additions, lookups and references on a new bundle, up to a length."""
from sa.project import AnalysisBroken
from sa.state import Fact, Inst, LRec
from sa.values import *  # noqa

from .engine_run import new_root
from .report import Report
from .rt_common import BUNDLE, SYN, Harness, RootNode, _contains, sy
from .select_rules import truth

NAME = "a"
MAXN = 8


class Node:
    lineno = 0
    col_offset = 0

    def __init__(self, n):
        self._id = n


class BH(Harness):
    live = False

    def child(self, it, f, args, kw, st, node, fr):
        if not self.live or self.compiling:
            return Harness.child(self, it, f, args, kw, st, node, fr)
        return self.outcome(it, ("child", f), st, node, fr, raises=())


# operation -> (kind of the definitions it adds, overrides allowed) or None
ADDS = {"add M": ("M", False), "add M!": ("M", True), "add T": ("T", False), "add T!": ("T", True),
        "add MM": ("MM", False), "add MT!": ("MT", True), "add MM!": ("MM", True)}
READS = ["get", "get -", "has", "msg ref", "term ref"]


class Histories:
    def __init__(self, reps):
        self.H = H = BH([])
        self.reps = reps
        self.n = self.hist = 0
        it = self.it = H.it
        H.discover()
        H.discover_bundle()
        cm = H.compile_all()
        evs = {c.qual: c for c in H.evaluators()}
        self.refs = {}
        for n in ("MessageReference", "TermReference"):
            q = sorted(x for x in cm.get(SYN + "." + n, ()) if x in evs)
            if not q:
                raise AnalysisBroken("no evaluator for " + n)
            self.refs[n] = evs[q[0]]

    def chk(self, prop, ok, rule, con, msg, und=False):
        if prop in self.reps:
            self.reps[prop].check(ok, rule, con, msg, "", undecided=und)

    def definition(self, st, kind, i):
        t = Sy(("in", "%s%d" % (kind, i)))
        st.facts[t.t] = Fact(frozenset([(SYN + "." + {"M": "Message", "T": "Term"}[kind], ())]), truth=True)
        idt = Sy(("in", "%s%d.id" % (kind, i)))
        st.facts[idt.t] = Fact(frozenset([(SYN + ".Identifier", ())]), truth=True)
        st.heap[idt] = Inst(None, {"name": K(NAME)})
        st.heap[t] = Inst(None, {"id": idt})
        return t

    def resource(self, st, defs, n):
        body = []
        for c in ("Comment", "Junk"):
            t = Sy(("in", "%s%d" % (c, n)))
            st.facts[t.t] = Fact(frozenset([(SYN + "." + c, ())]), truth=True)
            body.append(t)
        body[1:1] = defs
        la = ("o", ("root",), "body%d" % n)
        st.heap[la] = LRec(frozenset(), tuple(body), frozenset(), frozenset(), None, 0)
        r = Sy(("in", "resource%d" % n))
        st.facts[r.t] = Fact(frozenset([(SYN + ".Resource", ())]), truth=True)
        st.heap[r] = Inst(None, {"body": Obj(la)})
        return r

    # outcomes: [(state, "raise"/"ok", value)]
    def run(self, st, fr, fn):
        it = self.it
        it.excs.append([])
        try:
            res = fn(st)
        finally:
            ex = it.excs.pop()
        return [(s, "ok", v) for s, v in res] + [(s, "raise", v) for s, v in ex]

    def method(self, st, fr, b, name, args, kw, n):
        it = self.it
        return self.run(st, fr, lambda s: self.callm(s, fr, b, name, args, kw, n))

    def callm(self, s, fr, b, name, args, kw, n):
        it = self.it
        out = []
        for x, m in it.getattr_(b, name, s, Node(n + "m"), fr) if hasattr(it, "getattr_") else []:
            out += it.call(m, args, kw, x, Node(n), fr)
        return out or it.callmethod(b, name, args, s, Node(n), fr)

    def ref(self, st, fr, b, cls, n):
        """Evaluate a reference to NAME."""
        it, H = self.it, self.H
        ci = self.refs[cls]

        def go(s):
            env = self.env(s, b, n)
            slf = sy(s, "ref" + n, ci.qual, truth=True)
            idt = Sy(("in", "ref%s.id" % n))
            s.facts[idt.t] = Fact(frozenset([(SYN + ".Identifier", ())]), truth=True)
            s.heap[idt] = Inst(None, {"name": K(NAME)})
            f = {"id": idt}
            if cls == "TermReference":
                f["arguments"] = NONE_
            s.heap[slf] = Inst(None, f)
            s.frames[fr.fid]["slf"] = slf
            s.frames[fr.fid]["env"] = env
            H.live = True
            try:
                return it.call_fn(ci.lookup("__call__")[1], [slf, env], [], s, Node(n), fr)
            finally:
                H.live = False
        return self.run(st, fr, go)

    def env(self, st, b, n):
        H = self.H
        env = H.general(self.it, st, H.env_obj, H.env_state, "", RootNode, None)
        H.counters = ()
        for p in H.p_bundle:
            o = env
            for x in p[:-1]:
                o = st.heap[o.a].f[x]
            r = st.heap[o.a]
            f = dict(r.f)
            f[p[-1]] = b
            st.heap[o.a] = Inst(r.ci, f, r.many, r.nt)
        return env

    # ------------------------------------------------------------------ exploration
    def explore(self, depth, ops):
        it, H = self.it, self.H

        def root(it):
            st, fr, fid = new_root(it, BUNDLE)
            loc = sy(st, "locales", ("builtins.list", (frozenset([("builtins.str", ())]),)))
            B = it.find(BUNDLE + ":FluentBundle")
            level = []
            for s, b in it.call(B, [loc], [], st, RootNode, fr):
                s.frames[fid]["b"] = b
                level.append((s, b, None, None, ()))
            for d in range(depth + 1):
                new = []
                for s, b, m, t, h in level:
                    self.hist += 1
                    self.probe(s, fr, b, m, t, h)
                    if d < depth:
                        for op in ops:
                            new += self.step(s.fork(), fr, b, m, t, h, op, d)
                level = new
            it.root_results = [(st, NONE_)]
            return []
        it.solve(root)

    def step(self, st, fr, b, m, t, h, op, d):
        h2 = h + (op,)
        if op in ADDS:
            kinds, over = ADDS[op]
            defs = []
            for k in kinds:
                x = self.definition(st, k, len(h) * 2 + len(defs))
                defs.append(x)
                if k == "M" and (m is None or over):
                    m = x
                if k == "T" and (t is None or over):
                    t = x
            r = self.resource(st, defs, len(h))
            st.frames[fr.fid]["res%d" % len(h)] = r
            out = []
            for s, how, v in self.method_add(st, fr, b, r, over, "op%d" % d):
                if how == "raise":
                    self.chk("C27", False, "add-accepts", "add_resource after %s" % show(h), "raises %s" % self.it.show_exc(s, v))
                    continue
                out.append((s, b, m, t, h2))
            return out
        return [(s, b, m, t, h2) for s, how, v in self.read(st, fr, b, op, "op%d" % d)]

    def method_add(self, st, fr, b, r, over, n):
        it = self.it
        f = it.find(BUNDLE + ":FluentBundle.add_resource")
        return self.run(st, fr, lambda s: it.call_fn(f, [b, r], [("allow_overrides", TRUE)] if over else [], s, Node(n), fr))

    def read(self, st, fr, b, op, n):
        it = self.it
        if op in ("get", "get -", "has", "has -"):
            f = it.find(BUNDLE + ":FluentBundle." + ("get_message" if op[0] == "g" else "has_message"))
            k = K("-" + NAME if op[-1] == "-" else NAME)
            return self.run(st, fr, lambda s: it.call_fn(f, [b, k], [], s, Node(n), fr))
        return self.ref(st, fr, b, "MessageReference" if op == "msg ref" else "TermReference", n)

    def probe(self, st, fr, b, m, t, h):
        """Every read in this situation gives what the additions so far say."""
        for op in ["get", "get -", "has", "has -", "msg ref", "term ref"]:
            for s, how, v in self.read(st.fork(), fr, b, op, "probe"):
                self.n += 1
                self.judge(s, op, how, v, m, t, h)
        # any other identifier: the two answers agree and nothing is served
        f = self.it.find(BUNDLE + ":FluentBundle.has_message")
        g = self.it.find(BUNDLE + ":FluentBundle.get_message")
        s0 = st.fork()
        x = sy(s0, "name", "builtins.str")
        s0.frames[fr.fid]["x"] = x
        for s, how, v in self.run(s0, fr, lambda s: self.it.call_fn(f, [b, x], [], s, Node("p1"), fr)):
            has = None if how == "raise" else self.bool_(s, v)
            for s2, how2, v2 in self.run(s, fr, lambda s: self.it.call_fn(g, [b, x], [], s, Node("p2"), fr)):
                self.n += 1
                self.chk("C28", has is None or (how2 == "ok") is has, "has-agrees", "get_message for any identifier after " + show(h),
                         "has_message says %s, but get_message %s" % (has, "raises " + self.it.show_exc(s2, v2) if how2 == "raise" else "succeeds"), und=has is None)

    def bool_(self, st, v):
        if isinstance(v, K):
            return bool(v.v)
        if isinstance(v, Sy):
            return truth(st, v)
        return None

    def judge(self, s, op, how, v, m, t, h):
        want = {"get": m, "msg ref": m, "term ref": t}.get(op)
        where_ = "%s after %s" % ({"get": "get_message", "get -": "get_message('-%s')" % NAME, "has": "has_message",
                                   "has -": "has_message('-%s')" % NAME, "msg ref": "a message reference",
                                   "term ref": "a term reference"}[op], show(h))
        got = self.served(s, how, v)
        if op == "has":
            x = self.bool_(s, v) if how == "ok" else None
            self.chk("C28", x is None or x is (m is not None), "has-agrees", where_, "answers %s" % x, und=x is None)
            return
        if op == "has -":
            x = self.bool_(s, v) if how == "ok" else None
            self.chk("C28", x is None or x is False, "terms-private", where_, "answers %s" % x, und=x is None)
            return
        if op == "get -":
            self.chk("C28", how == "raise", "terms-private", where_, "yields %s" % (got,))
            return
        kind = {"t": "T"}.get(op[0], "M")
        other = [x for x in got if x[0] in "MT" and x[0] != kind]
        self.chk("C28", not other, "separate", where_, "yields the %s" % ("term" if kind == "M" else "message"))
        if want is None:
            self.chk("C28", not got, "nothing-served", where_, "yields %s although nothing is defined" % (got,))
            if op == "get":
                self.chk("C28", how == "raise" and any(x in self.names(s, v) for x in ("LookupError", "KeyError")),
                         "lookup-error", where_, "does not raise a lookup error" if how == "ok" else "raises " + self.it.show_exc(s, v))
            return
        if how == "raise":
            if op == "get" and self.names(s, v) and "KeyError" not in self.names(s, v):
                return      # compiling failed
            self.chk("C27", False, "right-definition", where_, "raises %s although it is defined" % self.it.show_exc(s, v))
            return
        if not got and op != "get" and not self.pattern_present(s, want, op):
            return          # an entry without a value or without the attribute
        self.chk("C27", got == {want.t[1]}, "right-definition", where_,
                 "yields %s, not definition %s" % (sorted(got) or "nothing", want.t[1]), und=False)

    def pattern_present(self, s, want, op):
        """Has the path found that the definition lacks the value or attribute?"""
        for t, f in s.facts.items():
            if t[0] == "in" and len(t) == 3 and _contains(t, want.t) and f.const is not None and not f.const.v:
                return False
            if t[0] in ("a", "i") and _contains(t, want.t) and f.types is not None and f.types == frozenset([("builtins.NoneType", ())]):
                return False
        return True

    def names(self, s, v):
        x = self.it.show_exc(s, v)
        return x.replace("(", " ").replace(":", " ").split()[:1] + (["KeyError"] if "KeyError" in x else [])

    def served(self, s, how, v):
        if how == "raise":
            return set()
        out = set()

        def walk(x, d=0):
            if isinstance(x, Sy):
                walk(x.t, d)
            elif isinstance(x, Obj):
                r = s.heap.get(x.a)
                if isinstance(r, Inst) and d < 4:
                    for y in r.f.values():
                        walk(y, d + 1)
            elif isinstance(x, tuple):
                if x and x[0] == "in" and len(x) == 2 and isinstance(x[1], str) and x[1][:1] in "MT" and x[1][1:].isdigit():
                    out.add(x[1])
                for y in x:
                    walk(y, d)
            elif isinstance(x, V) and not isinstance(x, K):
                for n in x.fields:
                    walk(getattr(x, n), d)
        walk(v)
        return out


def show(h):
    return ", ".join(h) if h else "nothing"


def analyse(props, tier):
    reps = {p: Report(p) for p in props}
    h = Histories(reps)
    ops = list(ADDS) + READS
    if tier == "thorough":
        h.explore(3, ops)
    else:
        h.explore(2, ops)
        h.explore(3, ["add M", "add M!", "add T", "add T!", "get", "msg ref", "term ref"])
    for r in reps.values():
        r.assumptions += NOTES
        r.count("histories", h.hist)
        r.count("outcomes compared", h.n)
        for u in list(h.it.unsupported)[:3]:
            r.note("imprecision: %s" % (str(u)[:200],))
    return reps


NOTES = ["all histories of up to three operations (all seven kinds of additions and five kinds of reads in the thorough "
         "run) followed by every kind of read; longer histories are not enumerated",
         "one identifier defined as message and term, and one arbitrary other identifier"]


def c27(tier):
    r = analyse(["C27"], tier)["C27"]
    r.rule("right-definition", "a lookup or reference serves the first definition added, or the latest added with overrides "
                               "allowed since, whatever was looked up before")
    r.rule("add-accepts", "adding a resource does not raise")
    return r


def c28(tier):
    r = analyse(["C28"], tier)["C28"]
    r.rule("has-agrees", "get_message succeeds exactly when has_message holds")
    r.rule("terms-private", "no term is served by get_message or reported by has_message")
    r.rule("separate", "messages and terms of one name are never exchanged")
    r.rule("nothing-served", "an undefined identifier serves nothing")
    r.rule("lookup-error", "get_message raises a lookup error for an undefined identifier")
    return r
