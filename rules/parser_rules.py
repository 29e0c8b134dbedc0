"""C01-C02: the parser never raises, terminates and stays inside the source."""
import ast as A

from sa.state import Inst, len_sym
from sa.values import *  # noqa

from .parser_common import Obs, RUNS, as_l, fn_name, int_fields, run_all, stream_of
from .report import snippet, where


# ---------------------------------------------------------------------- C01
class C01(Obs):
    def start_pass(self, it, n):
        Obs.start_pass(self, it, n)
        self.edges = {}
        self.makes = {}

    def on_tabcall(self, it, st, ctx, fr, node):
        cur = it.ctxstack[-1] if it.ctxstack else None
        if cur is not None:
            self.edges.setdefault(cur.fn.node._qual, set()).add(ctx.fn.node._qual)
        self.rep.count("calls of tabulated functions")

    def on_construct(self, it, st, o, ci, node, fr, args, kw):
        cur = it.ctxstack[-1] if it.ctxstack else None
        if cur is not None:
            self.makes.setdefault(cur.fn.node._qual, set()).add(ci.name)

    def on_raise(self, it, st, val, node, fr):
        self.rep.count("raising operations met")
        # an obligation per raising construct; escapes are found at the root
        self.rep.check(True, "raise-caught", fn_name(fr) + ": " + snippet(node))

    def finish(self, it):
        rep = self.rep
        rep.rule("no-escape", "no exception leaves the entry point on any abstract path")
        rep.rule("raise-caught", "every construct that may raise (explicit raise or failing operation) is handled "
                                 "before the entry point returns")
        rep.rule("unbounded-recursion", "no recursion whose depth grows with the input")
        rep.rule("returns-ast", "the entry point returns an AST node")
        name = "FluentParser.%s" % self.run[0]
        self.check(not it.root_excs, "no-escape", name,
                   "; ".join(sorted({it.show_exc(s, v) + "" for s, v in it.root_excs}))[:300], it.find_node(name)
                   if hasattr(it, "find_node") else None, None)
        for s, v in it.root_excs:
            org = origin(it, s, v)
            rep.check(False, "raise-caught", org, "escapes from %s: %s" % (name, it.show_exc(s, v)), org)
        rep.need(it.root_results or it.root_excs, "outcomes of " + name)
        for st, v in it.root_results:
            r = st.heap.get(v.a) if isinstance(v, Obj) else None
            want = {"parse": ("Resource",), "parse_entry": ("Message", "Term", "Junk", "Comment", "GroupComment",
                                                            "ResourceComment")}[self.run[0]]
            rep.check(isinstance(r, Inst) and r.ci is not None and r.ci.name in want, "returns-ast", name,
                      "returns %r" % (v,), name)
        # recursion
        for comp in sccs(self.edges):
            if len(comp) == 1 and next(iter(comp)) not in self.edges.get(next(iter(comp)), ()):
                continue
            made = set()
            for q in comp:
                made |= self.makes.get(q, set())
            con = "recursion through Placeable" if "Placeable" in made else "recursion " + ",".join(sorted(comp))
            rep.check(False, "unbounded-recursion", con, "recursive cycle: " + ", ".join(sorted(comp)), con)


def origin(it, st, v):
    r = st.heap.get(v.a) if isinstance(v, Obj) else None
    if isinstance(r, Inst):
        o = r.f.get("%org")
        if o is not None:
            return str(o)
    return it.show_exc(st, v)


def sccs(g):
    nodes = set(g) | {y for x in g.values() for y in x}
    idx, low, onst, stk, out = {}, {}, set(), [], []

    def go(v):
        idx[v] = low[v] = len(idx)
        stk.append(v)
        onst.add(v)
        for w in sorted(g.get(v, ()), key=repr):
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in onst:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            c = set()
            while True:
                w = stk.pop()
                onst.discard(w)
                c.add(w)
                if w == v:
                    break
            out.append(c)
    for v in sorted(nodes, key=repr):
        if v not in idx:
            go(v)
    return out


def c01(tier):
    rep = run_all("C01", C01, RUNS)
    rep.assumptions += ["the argument is a str", "memory is sufficient", "library models in sa/m_*.py are faithful"]
    return rep


# ---------------------------------------------------------------------- C02
class C02(Obs):
    always = True

    def start_pass(self, it, n):
        Obs.start_pass(self, it, n)
        self.loops = {}      # loop id -> surviving measures
        self.meta = {}
        self.edges = {}
        self.seen_loops = {}
        self.stall = {}

    def __init__(self, rep, run):
        Obs.__init__(self, rep, run)
        self.loops, self.meta, self.edges, self.seen_loops = {}, {}, {}, {}
        self.stall = {}

    def measures(self, st, fr, locs=True):
        out = []
        for a, r in stream_of(st):
            ints = int_fields(r)
            for n in ints:
                out.append(("cursor " + n, as_l(r.f[n])))
            for i, n in enumerate(ints):
                for m in ints[i + 1:]:
                    out.append(("cursor " + n + "+" + m, as_l(r.f[n]) + as_l(r.f[m])))
            break
        if locs:
            for n, v in sorted(st.frames.get(fr.fid, {}).items()):
                e = as_l(v)
                if e is not None and not n.startswith("%") and not (isinstance(v, K) and isinstance(v.v, bool)):
                    out.append(("local " + n, e))
        return tuple(out)

    def loop_ghost(self, it, node, fr, st):
        return self.measures(st, fr)

    def on_step(self, it, node, fr, st, ghost):
        if not isinstance(node, A.While) or ghost is None:
            return
        self.rep.count("loop iterations (abstract back edges)")
        now = dict(self.measures(st, fr))
        good = set()
        L = None
        for a, r in stream_of(st):
            src = next(v for v in r.f.values() if isinstance(v, Src))
            L = len_sym(src.name)
        for n, was in ghost:
            cur = now.get(n)
            if cur is None:
                continue
            if not st.entails(cur - was - 1):
                continue
            if n.startswith("cursor"):
                if L is not None and st.entails(L - cur):
                    good.add(n)
            elif bounded_local(node, n[6:]) or L is not None and st.entails(L - cur):
                good.add(n)
        k = fn_name(fr) + ": " + snippet(node.test)
        self.meta[k] = (node, fr)
        if not good and it.final:
            same = [(n, now[n], was) for n, was in ghost if n in now and "+" not in n]
            if any(n.startswith("cursor") for n, _, _ in same) and all(
                    st.entails(a - b) and st.entails(b - a) for _, a, b in same):
                self.stall[k] = "a way round the loop leaves the cursor and every counter unchanged"
        self.loops[k] = good if k not in self.loops else self.loops[k] & good

    def loop_enter(self, it, node, fr):
        if it.final and isinstance(node, (A.While, A.For)):
            k = fn_name(fr) + ": " + snippet(node.test if isinstance(node, A.While) else node.iter)
            self.seen_loops[k] = (node, fr)

    def on_tabcall(self, it, st, ctx, fr, node):
        cur = it.ctxstack[-1] if it.ctxstack else None
        if cur is None:
            return
        g = st.ghost.get(("prog", "ctx"))
        if not g:
            return
        now = dict(self.measures(st, fr, locs=False))
        g = [x for x in g if x[0].startswith("cursor")]
        consuming = any(n in now and n.count("+") == 0 and "offset" not in n and st.entails(now[n] - was - 1)
                        and self._position(st, n) for n, was in g)
        e = (cur.key, ctx.key)
        self.edges[e] = self.edges.get(e, True) and consuming
        self.names = getattr(self, "names", {})
        self.names[cur.key] = cur.fn.node._qual
        self.names[ctx.key] = ctx.fn.node._qual
        self.rep.count("calls of tabulated functions")

    def _position(self, st, n):
        return True

    def on_recursion(self, it, st, f, node, fr):
        self.rep.note("untabulated recursion: " + getattr(f.node, "name", "lambda"))

    def finish(self, it):
        rep = self.rep
        rep.rule("loop-progress", "every while loop has one measure (a cursor position bounded by the end of the "
                                  "source, or a bounded counter) that strictly grows on every abstract back edge")
        rep.rule("for-finite", "every for loop iterates over a finite collection")
        rep.rule("recursion-consumes", "no recursive cycle of calls without consumption of a character")
        rep.rule("position-in-source", "the cursor never stands beyond the end of the source when a function returns")
        for k, (node, fr) in self.seen_loops.items():
            if isinstance(node, A.For):
                rep.check(finite_iter(node.iter), "for-finite", k, "iterates over " + snippet(node.iter), where(node, fr))
            elif k not in self.loops:
                rep.check(True, "loop-progress", k)       # no abstract path goes round twice
        for k, good in self.loops.items():
            node, fr = self.meta[k]
            rep.check(bool(good), "loop-progress", k,
                      self.stall.get(k, "no measure was proved to grow on every way round the loop"),
                      where(node, fr), undecided=k not in self.stall)
        g = {}
        for (x, y), c in self.edges.items():
            if not c:
                g.setdefault(x, set()).add(y)
        bad = False
        for comp in sccs(g):
            v = next(iter(comp))
            if len(comp) > 1 or v in g.get(v, ()):
                bad = True
                names = ", ".join(sorted({self.names[x] for x in comp}))
                rep.check(False, "recursion-consumes", names, "calls in this cycle consume nothing", names)
        if not bad:
            rep.check(True, "recursion-consumes", "call graph of the parser")
        rep.count("tabulated call edges", len(self.edges))

    def on_return(self, it, st, f, v, nfr, node, fr):
        q = getattr(f.node, "_qual", "?")
        if not q.startswith("fluent.syntax.parser"):
            return
        for a, r in stream_of(st):
            src = next(x for x in r.f.values() if isinstance(x, Src))
            L = len_sym(src.name)
            for n in int_fields(r):
                e = as_l(r.f[n])
                self.check(st.entails(L - e) and st.entails(e), "position-in-source", q + " " + n,
                           "cursor field %s may be outside 0..len on return" % n, f.node, nfr)
            break


def finite_iter(e):
    for n in A.walk(e):
        if isinstance(n, A.Call):
            f = n.func
            nm = f.attr if isinstance(f, A.Attribute) else getattr(f, "id", "")
            if nm in ("count", "cycle", "repeat") or nm == "iter" and len(n.args) == 2:
                return False
    return True


def bounded_local(node, name):
    """The loop condition compares the local with something from above."""
    for c in A.walk(node.test):
        if isinstance(c, A.Compare):
            left = c.left
            for op, right in zip(c.ops, c.comparators):
                if isinstance(op, (A.Lt, A.LtE)) and any(isinstance(x, A.Name) and x.id == name for x in A.walk(left)):
                    return True
                if isinstance(op, (A.Gt, A.GtE)) and any(isinstance(x, A.Name) and x.id == name for x in A.walk(right)):
                    return True
                left = right
    return False


def c02(tier):
    rep = run_all("C02", C02, RUNS if tier == "thorough" else RUNS[:1] + RUNS[2:3])
    rep.assumptions += ["the argument is a str"]
    return rep
