"""Exact mode: bounded exploration without joins, with generators and lazy iterators that suspend.

In this mode (`it.exact`) no two states are merged, every allocation gets its own address, loops are unrolled and a
generator object keeps its position between two `next` steps, so the order of effects is the real one."""
import ast

from . import scopes
from .project import number
from .state import LRec, SRec
from .values import *  # noqa

NEXT, BRK, CNT, RET, EXC = "next", "brk", "cnt", "ret", "exc"
LOOPS = 40      # iterations of one loop, then the path is given up


def has_yield(n):
    r = getattr(n, "_hasyield", None)
    if r is None:
        r = False
        work = [n]
        while work:
            x = work.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if x is not n and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                break
            work.extend(ast.iter_child_nodes(x))
        n._hasyield = r
    return r


class Coro:
    exact = False
    opaque_next = None      # hook(it, term, st, node, fr) -> [(kind, st, val)]
    gaveup = 0

    def giveup(self, node, fr, why):
        self.gaveup += 1
        self.unsup(node, fr, why)

    def exact_loop(self, node, fr, sts, step):
        res = []
        cur = list(sts)
        for _ in range(LOOPS):
            nxt = []
            for x in cur:
                self.excs.append([])
                outs = step(x)
                res.extend((EXC, y, v) for y, v in self.excs.pop())
                for o in outs:
                    if o[0] == CNT:
                        nxt.append(o[1])
                    else:
                        res.append(o)
            cur = nxt
            if not cur:
                return res
        self.giveup(node, fr, "loop unrolled %d times" % LOOPS)
        return res

    # ------------------------------------------------------------ iterators
    def lazy(self, v, st):
        """Iterator state for an iterable, or None when the ordinary treatment applies."""
        if isinstance(v, Gen):
            return v
        if isinstance(v, Sy) and self.opaque_next is not None and self.opaque_next.iterable(v, st):
            return v
        if isinstance(v, Obj) and isinstance(self.rec(st, v.a), LRec) and self.rec(st, v.a).exact():
            return Tup((K("%list"), v, K(0)))
        if isinstance(v, Obj) and isinstance(self.rec(st, v.a), SRec):
            r = self.rec(st, v.a)       # one order of the many
            if r.rest is None and r.org is None and all(isinstance(x, K) for x in r.items):
                return Tup((K("%seq"), Tup(tuple(sorted(r.items, key=repr))), K(0)))
        if isinstance(v, Tup) and v.items and isinstance(v.items[0], K) and isinstance(v.items[0].v, str) \
                and v.items[0].v.startswith("%"):
            return v
        if isinstance(v, Tup):
            return Tup((K("%seq"), v, K(0)))
        if isinstance(v, K) and isinstance(v.v, (range, tuple)):
            return Tup((K("%seq"), Tup(tuple(K(x) for x in v.v)), K(0)))
        if isinstance(v, Part) and isinstance(v.f, Ext):
            q = v.f.q
            if q == "builtins.range" and all(isinstance(a, (K, I)) for a in v.args):
                a = [self.konst(x) for x in v.args]
                if None not in a:
                    return self.lazy(K(range(*a)), st)
            if q == "builtins.enumerate":
                s = self.lazy(v.args[0], st)
                n = 0
                if len(v.args) > 1:
                    n = self.konst(v.args[1])
                for k, x in v.kw:
                    n = self.konst(x) if k == "start" else None
                return None if s is None or n is None else Tup((K("%enum"), s, K(n)))
            if q == "builtins.zip":
                s = [self.lazy(a, st) for a in v.args]
                return None if None in s else Tup((K("%zip"), Tup(tuple(s))))
            if q in ("builtins.iter", "builtins.list.copy") and len(v.args) == 1:
                return self.lazy(v.args[0], st)
            if q in ("builtins.map", "builtins.filter") and len(v.args) == 2:
                s = self.lazy(v.args[1], st)
                return None if s is None else Tup((K("%" + q[9:]), v.args[0], s))
            if q == "itertools.count":
                a = [self.konst(x) for x in v.args]
                return None if None in a else Tup((K("%count"), K(a[0] if a else 0), K(a[1] if len(a) > 1 else 1)))
            if q == "itertools.chain":
                return Tup((K("%chain"), Tup(tuple(v.args)), NONE_))
            if q == "itertools.takewhile":
                s = self.lazy(v.args[1], st)
                return None if s is None else Tup((K("%takewhile"), v.args[0], s))
        return None

    def konst(self, v):
        if isinstance(v, K) and isinstance(v.v, int):
            return v.v
        if isinstance(v, I) and not v.e.t:
            return v.e.c
        return None

    def iter_next(self, s, st, node, fr):
        """[("item", st, value, iterator) | ("stop", st, None, s) | (EXC, st, val, s)]"""
        if isinstance(s, Gen):
            out = []
            for k, x, v in self.resume(s, st, node, fr):
                out.append(("item" if k == "yield" else "stop" if k == "stop" else EXC, x, v, s))
            return out
        if isinstance(s, Sy):
            return [(k, x, v, s) for k, x, v in self.opaque_next(self, s, st, node, fr)]
        k = s.items[0].v
        if k == "%list":
            items = self.rec(st, s.items[1].a)
            i = s.items[2].v
            if not items.exact():
                self.giveup(node, fr, "list changed while iterating")
                return []
            if i < len(items.tail):
                return [("item", st, items.tail[i], Tup((s.items[0], s.items[1], K(i + 1))))]
            return [("stop", st, None, s)]
        if k == "%seq":
            i = s.items[2].v
            if i < len(s.items[1].items):
                return [("item", st, s.items[1].items[i], Tup((s.items[0], s.items[1], K(i + 1))))]
            return [("stop", st, None, s)]
        if k == "%count":
            return [("item", st, s.items[1], Tup((s.items[0], K(s.items[1].v + s.items[2].v), s.items[2])))]
        if k == "%enum":
            return [(kk, x, Tup((s.items[2], v)) if kk == "item" else v, Tup((s.items[0], t, K(s.items[2].v + 1))))
                    for kk, x, v, t in self.iter_next(s.items[1], st, node, fr)]
        if k == "%map":
            out = []
            for kk, x, v, t in self.iter_next(s.items[2], st, node, fr):
                if kk != "item":
                    out.append((kk, x, v, t))
                    continue
                self.excs.append([])
                rs = self.call(s.items[1], [v], [], x, node, fr)
                out.extend((EXC, y, w, s) for y, w in self.excs.pop())
                out.extend(("item", y, w, Tup((s.items[0], s.items[1], t))) for y, w in rs)
            return out
        if k in ("%filter", "%takewhile"):
            out = []
            work = [(st, s.items[2])]
            for _ in range(LOOPS):
                nw = []
                for x0, t0 in work:
                    for kk, x, v, t in self.iter_next(t0, x0, node, fr):
                        if kk != "item":
                            out.append((kk, x, v, t))
                            continue
                        self.excs.append([])
                        rs = [(x, v)] if s.items[1] == NONE_ else self.call(s.items[1], [v], [], x, node, fr)
                        out.extend((EXC, y, w, s) for y, w in self.excs.pop())
                        for y, w in rs:
                            for z, b in self.truth(w, y):
                                if b:
                                    out.append(("item", z, v, Tup((s.items[0], s.items[1], t))))
                                elif k == "%takewhile":
                                    out.append(("stop", z, None, s))
                                else:
                                    nw.append((z, t))
                work = nw
                if not work:
                    return out
            self.giveup(node, fr, "filter")
            return out
        if k == "%zip":
            work = [(st, ())]
            new = [(st, (), ())]
            out = []
            for sub in s.items[1].items:
                nw = []
                for x0, vs, ts in new:
                    for kk, x, v, t in self.iter_next(sub, x0, node, fr):
                        if kk != "item":
                            out.append((kk, x, v, s))
                        else:
                            nw.append((x, vs + (v,), ts + (t,)))
                new = nw
            out.extend(("item", x, Tup(vs), Tup((s.items[0], Tup(ts)))) for x, vs, ts in new)
            return out
        if k == "%chain":
            out = []
            rest, cur = s.items[1].items, s.items[2]
            if cur == NONE_:
                if not rest:
                    return [("stop", st, None, s)]
                cur = self.lazy(rest[0], st)
                rest = rest[1:]
                if cur is None:
                    self.giveup(node, fr, "chain of an unknown iterable")
                    return []
            for kk, x, v, t in self.iter_next(cur, st, node, fr):
                if kk == "item":
                    out.append(("item", x, v, Tup((s.items[0], Tup(rest), t))))
                elif kk == "stop":
                    out.extend(self.iter_next(Tup((s.items[0], Tup(rest), NONE_)), x, node, fr))
                else:
                    out.append((kk, x, v, t))
            return out
        raise AssertionError(k)

    def exact_for(self, s, st, fr, node, body):
        """A for loop over an iterator state."""
        mark = "%co" + node._id
        while mark in st.frames[fr.fid]:
            mark += "'"
        st.frames[fr.fid][mark] = s
        res = []
        cur = [st]
        for _ in range(LOOPS):
            nxt = []
            for x in cur:
                t0 = x.frames[fr.fid][mark]
                for k, y, v, t in self.iter_next(t0, x, node, fr):
                    if k != "item":
                        y.frames[fr.fid].pop(mark, None)
                        res.append((NEXT, y, None) if k == "stop" else (EXC, y, v))
                        continue
                    y.frames[fr.fid][mark] = t
                    self.excs.append([])
                    outs = body(y, v)
                    ex = self.excs.pop()
                    for o in outs + [(EXC, a, b) for a, b in ex]:
                        if o[0] in (NEXT, CNT):
                            nxt.append(o[1])
                        else:
                            o[1].frames.get(fr.fid, {}).pop(mark, None)
                            res.append(o)
            cur = nxt
            if not cur:
                return res
        self.giveup(node, fr, "loop unrolled %d times" % LOOPS)
        return res

    def b_next(self, args, kw, st, node, fr):
        if not self.exact or not args:
            return None
        s = self.lazy(args[0], st)
        if not isinstance(s, (Gen, Sy)):
            return None
        out = []
        for k, x, v, t in self.iter_next(s, st, node, fr):
            if k == "item":
                out.append((x, v))
            elif k == "stop":
                if len(args) > 1:
                    out.append((x, args[1]))
                else:
                    self.rx(x, "StopIteration", node, fr)
            else:
                self.excs[-1].append((x, v))
        return out

    def lazy_genexp(self, e, st, fr):
        """A generator expression as the generator function it stands for."""
        f = getattr(e, "_asgen", None)
        if f is None:
            src = ast.FunctionDef(name="<genexpr>", args=ast.arguments(
                posonlyargs=[], args=[ast.arg(arg=".0")], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                defaults=[]), body=[], decorator_list=[], returns=None, type_comment=None, type_params=[])
            inner = [ast.Expr(value=ast.Yield(value=e.elt))]
            for i in range(len(e.generators) - 1, -1, -1):
                g = e.generators[i]
                for c in reversed(g.ifs):
                    inner = [ast.If(test=c, body=inner, orelse=[])]
                inner = [ast.For(target=g.target, iter=ast.Name(id=".0", ctx=ast.Load()) if i == 0 else g.iter,
                                 body=inner, orelse=[], type_comment=None)]
            src.body = inner
            ast.copy_location(src, e)
            ast.fix_missing_locations(src)
            number(src, e._id + "<genexpr>")
            for n in ast.walk(src):
                for ch in ast.iter_child_nodes(n):
                    ch._parent = n
            f = e._asgen = src
        out = []
        self.finfo[fr.fid] = (fr.node, fr.parent, fr.mod)
        for x, itv in self.ev(e.generators[0].iter, st, fr):
            out.extend(self.call_fn(Fn(f, fr.mod, fr.fid, None), [itv], [], x, e, fr))
        return out

    # ------------------------------------------------------------ suspended execution
    def resume(self, g, st, node, fr):
        """Run a generator to its next yield: [("yield", st, v) | ("stop", st, v) | (EXC, st, val)]"""
        f = g.f
        key = ("gen", g.fid)
        stack = st.ghost.get(key, (("blk", tuple(f.node.body), 0),))
        if stack == "done":
            return [("stop", st, NONE_)]
        if stack == "running":
            return [(EXC, st, Ex("builtins.ValueError", (K("generator already executing"),)))]
        if g.fid not in st.frames:
            self.giveup(node, fr, "generator frame")
            return []
        nfr = self.gen_frame(g, fr)
        st.ghost[key] = "running"
        self.callstack.append(f.node)
        res = []
        work = [(st, stack, None)]
        steps = 0
        while work:
            x, stk, sig = work.pop()
            steps += 1
            if steps > 4000:
                self.giveup(node, fr, "generator steps")
                break
            for o in self.gen_step(x, stk, sig, nfr):
                if o[0] == "go":
                    work.append(o[1:])
                else:
                    k, y, s2, v = o
                    y.ghost[key] = s2 if k == "yield" else "done"
                    if k != "yield":
                        y.frames.pop(g.fid, None)
                    res.append((k, y, v))
        self.callstack.pop()
        return res

    def gen_frame(self, g, fr):
        from .interp import Frame
        f = g.f
        return Frame(g.fid, f.node, f.mod, f.cls, self.gens[g.fid], f.fid, fn=f, ctx=fr.ctx)

    def evx(self, e, st, fr):
        self.excs.append([])
        r = self.ev(e, st, fr) if e is not None else [(st, NONE_)]
        return r, self.excs.pop()

    def gen_step(self, st, stk, sig, fr):
        """One step: yields ("go", st, stack, signal) or final outcomes (kind, st, stack, value)."""
        if not stk:
            if sig is None or sig[0] == RET:
                return [("stop", st, (), sig[1] if sig else NONE_)]
            return [(EXC, st, (), sig[1])]
        top, rest = stk[-1], stk[:-1]
        kind = top[0]
        if sig is not None:
            return self.gen_unwind(st, top, rest, sig, fr)
        if kind == "blk":
            stmts, i = top[1], top[2]
            if i >= len(stmts):
                return [("go", st, rest, None)]
            nxt = rest + (("blk", stmts, i + 1),)
            return self.gen_stmt(st, stmts[i], nxt, fr)
        if kind == "while":
            n = top[1]
            self.excs.append([])
            T, F = self.cond(n.test, st, fr)
            ex = self.excs.pop()
            out = [("go", x, stk + (("blk", tuple(n.body), 0),), None) for x in T]
            out += [("go", x, rest + ((("blk", tuple(n.orelse), 0),) if n.orelse else ()), None) for x in F]
            return out + [("go", x, rest, (EXC, v)) for x, v in ex]
        if kind in ("for", "yf"):
            n, mark = top[1], top[2]
            out = []
            for k, x, v, t in self.iter_next(st.frames[fr.fid][mark], st, n, fr):
                if k == "item":
                    x.frames[fr.fid][mark] = t
                    if kind == "yf":
                        out.append(("yield", x, stk, v))
                        continue
                    self.excs.append([])
                    r = self.assign(n.target, v, x, fr)
                    out += [("go", y, rest, (EXC, w)) for y, w in self.excs.pop()]
                    out += [("go", y, stk + (("blk", tuple(n.body), 0),), None) for y in r]
                elif k == "stop":
                    x.frames[fr.fid].pop(mark, None)
                    orelse = ((("blk", tuple(n.orelse), 0),) if kind == "for" and n.orelse else ())
                    out.append(("go", x, rest + orelse, None))
                else:
                    x.frames[fr.fid].pop(mark, None)
                    out.append(("go", x, rest, (EXC, v)))
            return out
        if kind == "try":
            # the body ended normally
            n = top[1]
            st2 = rest
            if n.finalbody:
                st2 = rest + (("fin", n, None),)
            return [("go", st, st2 + ((("blk", tuple(n.orelse), 0),) if n.orelse else ()), None)]
        if kind == "fin":
            n = top[1]
            return [("go", st, rest + (("pend", None), ("blk", tuple(n.finalbody), 0)), None)]
        if kind == "hnd":
            self.restore(st, top, fr)
            return [("go", st, rest, None)]
        if kind == "pend":
            return [("go", st, rest, top[1])]
        if kind == "with":
            self.emit("on_exit", st, top[2], top[1], fr, NEXT)
            return [("go", st, rest, None)]
        raise AssertionError(kind)

    def restore(self, st, top, fr):
        d = st.frames.get(fr.fid)
        if d is not None:
            if top[2] is None:
                d.pop("%exc", None)
            else:
                d["%exc"] = top[2]
            if top[1].name:
                d.pop(top[1].name, None)

    def gen_unwind(self, st, top, rest, sig, fr):
        kind = top[0]
        if kind in ("blk",):
            return [("go", st, rest, sig)]
        if kind in ("while", "for", "yf"):
            if sig[0] == CNT and kind != "yf":
                return [("go", st, rest + (top,), None)]
            if kind != "while":
                st.frames[fr.fid].pop(top[2], None)
            if sig[0] == BRK and kind != "yf":
                return [("go", st, rest, None)]
            return [("go", st, rest, sig)]
        if kind == "try":
            n = top[1]
            base = rest + ((("fin", n, None),) if n.finalbody else ())
            if sig[0] != EXC:
                return [("go", st, base, sig)]
            out = []
            pending = [(st, sig[1])]
            for h in n.handlers:
                nx = []
                for x, v in pending:
                    if h.type is None:
                        caught, un = [(x, v)], []
                    else:
                        r, _ = self.evx(h.type, x, fr)
                        x, tv = r[0]
                        types = list(tv.items) if isinstance(tv, Tup) else [tv]
                        caught, un = self.match_exc(x, v, types)
                    nx += un
                    for y, w in caught:
                        self.emit("on_catch", y, w, h, n, fr)
                        d = y.frames[fr.fid]
                        prev = d.get("%exc")
                        d["%exc"] = w
                        if h.name:
                            d[h.name] = w
                        out.append(("go", y, base + (("hnd", h, prev), ("blk", tuple(h.body), 0)), None))
                pending = nx
            return out + [("go", x, base, (EXC, v)) for x, v in pending]
        if kind == "fin":
            return [("go", st, rest + (("pend", sig), ("blk", tuple(top[1].finalbody), 0)), None)]
        if kind == "hnd":
            self.restore(st, top, fr)
            return [("go", st, rest, sig)]
        if kind == "pend":
            return [("go", st, rest, sig)]
        if kind == "with":
            self.emit("on_exit", st, top[2], top[1], fr, sig[0])
            return [("go", st, rest, sig)]
        raise AssertionError(kind)

    def gen_stmt(self, st, s, nxt, fr):
        if not has_yield(s):
            out = []
            for o in self.block([s], [st], fr):
                k = o[0]
                if k == NEXT:
                    out.append(("go", o[1], nxt, None))
                elif k in (BRK, CNT):
                    out.append(("go", o[1], nxt, (k, None)))
                else:
                    out.append(("go", o[1], nxt, (k, o[2] if o[2] is not None else NONE_)))
            return out
        t = type(s)
        if t in (ast.Expr, ast.Assign) and isinstance(s.value, ast.Yield):
            r, ex = self.evx(s.value.value, st, fr)
            out = [("go", x, nxt, (EXC, v)) for x, v in ex]
            for x, v in r:
                k = nxt
                if t is ast.Assign:
                    k = nxt + (("blk", (self.sent(s),), 0),)
                self.emit("on_yield", x, v, s.value, fr)
                out.append(("yield", x, k, v))
            return out
        if t is ast.Expr and isinstance(s.value, ast.YieldFrom):
            r, ex = self.evx(s.value.value, st, fr)
            out = [("go", x, nxt, (EXC, v)) for x, v in ex]
            return out + self.start(r, s.value, "yf", nxt, fr)
        if t is ast.If:
            self.excs.append([])
            T, F = self.cond(s.test, st, fr)
            out = [("go", x, nxt, (EXC, v)) for x, v in self.excs.pop()]
            out += [("go", x, nxt + (("blk", tuple(s.body), 0),), None) for x in T]
            out += [("go", x, nxt + (("blk", tuple(s.orelse), 0),), None) for x in F]
            return out
        if t is ast.For and not has_yield(s.iter):
            r, ex = self.evx(s.iter, st, fr)
            return [("go", x, nxt, (EXC, v)) for x, v in ex] + self.start(r, s, "for", nxt, fr)
        if t is ast.While:
            return [("go", st, nxt + (("while", s),), None)]
        if t is ast.Try:
            return [("go", st, nxt + (("try", s), ("blk", tuple(s.body), 0)), None)]
        if t is ast.With and not any(has_yield(i) for i in s.items):
            out = []
            work = [(st, nxt, 0)]
            while work:
                x, k, i = work.pop()
                if i == len(s.items):
                    out.append(("go", x, k + (("blk", tuple(s.body), 0),), None))
                    continue
                r, ex = self.evx(s.items[i].context_expr, x, fr)
                out += [("go", y, k, (EXC, v)) for y, v in ex]
                for y, v in r:
                    if isinstance(v, CMgr) or isinstance(v, Obj):
                        self.giveup(s, fr, "context manager around a yield")
                        continue
                    self.emit("on_enter", y, v, s, fr)
                    k2 = k + (("with", s, v),)
                    ov = s.items[i].optional_vars
                    work += [(z, k2, i + 1) for z in (self.assign(ov, v, y, fr) if ov is not None else [y])]
            return out
        self.giveup(s, fr, "yield in this position")
        return []

    def sent(self, s):
        r = getattr(s, "_sent", None)
        if r is None:
            r = s._sent = ast.Assign(targets=s.targets, value=ast.copy_location(ast.Constant(value=None), s))
            ast.copy_location(r, s)
            r._id = s._id + "sent"
            r.value._id = s._id + "sentv"
        return r

    def start(self, r, n, kind, nxt, fr):
        out = []
        for x, v in r:
            s = self.lazy(v, x)
            if s is None:
                self.giveup(n, fr, "iterable around a yield")
                continue
            mark = "%co" + n._id
            x.frames[fr.fid][mark] = s
            out.append(("go", x, nxt + ((kind, n, mark),), None))
        return out
