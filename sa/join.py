"""Shape keys, joins and widening of abstract states."""
from .charset import ANY, ANYCH, EOF, CS
from .linear import Cons, Lin, lin, symlin
from . import strs
from .state import *  # noqa
from .state import _fresh
from .values import *  # noqa
from .values import V

BIG = ANYCH | strs.CRXS


def kind(v, slot, loose):
    t = type(v)
    if t is K:
        if type(v.v) is int:
            if slot in loose or (slot and slot[0] == "h"):
                return "int"
            return v
        if type(v.v) is str:
            if v.v == "":
                return "s0" if slot not in loose else "str?"
            return v if slot not in loose else "str"
        return v
    if t is I:
        return "int"
    if t is Ch:
        return "ch" if slot not in loose else "str"
    if t is Od:
        return "od"
    if t is St:
        return "str" if strs.minlen_items(v.items) > 0 and slot not in loose else "str?"
    if t is Tup:
        return tuple(kind(x, slot, loose) for x in v.items)
    if t is Bm:
        return ("bm", kind(v.self_, slot, loose), v.f)
    if t is Sy:
        return v if slot not in loose else "sy"
    if t is Top:
        return "top"
    return v


def rkind(a, r, loose):
    if isinstance(r, Inst):
        return ("I", r.ci.qual if r.ci else None, r.many,
                tuple(sorted((f, repr(kind(v, ("h", a, f), loose))) for f, v in r.f.items())))
    if isinstance(r, LRec):
        return ("L", "N" if r.minlen() else "E" if r.exact() else "?")
    if isinstance(r, DRec):
        return ("D", tuple(sorted(repr(k) for k, _ in r.items)) if len(r.items) < 6 else "many")
    if isinstance(r, SRec):
        return ("S", bool(r.items or r.rest), r.some)
    return r


def is_sum(a):
    return isinstance(a, tuple) and len(a) > 0 and a[0] in ("sum", "old")


# a predicate on terms: states that know different things about such a term are not joined
KEYFACTS = None


def shape(st, loose):
    fr = []
    for fid in sorted(st.frames, key=repr):
        d = st.frames[fid]
        for n in sorted(d):
            fr.append((fid, n, kind(d[n], ("f", fid, n), loose)))
    # objects reachable not through summaries
    direct = set()
    for d in st.frames.values():
        for v in d.values():
            addrs_of(v, direct)
    hp = []
    seen = set()
    work = [a for a in direct]
    for a in st.heap:
        if isinstance(a, Sy):
            work.append(a)
    while work:
        a = work.pop()
        if a in seen:
            continue
        seen.add(a)
        if isinstance(a, tuple) and a and a[0] == "frame":
            continue
        r = st.heap.get(a)
        if r is None:
            continue
        if not is_sum(a):
            hp.append((a, rkind(a, r, loose)))
        if isinstance(r, Inst) and not is_sum(a):
            nx = set()
            for v in r.f.values():
                addrs_of(v, nx)
            work.extend(nx)
        elif isinstance(r, DRec):
            pass
    hp.sort(key=repr)
    gh = tuple(sorted(((k, repr(gkind(g))) for k, g in st.ghost.items()), key=repr))
    if KEYFACTS is not None:
        gh += tuple(sorted((repr(t), repr(f.const), f.truth) for t, f in st.facts.items() if KEYFACTS(t)))
    return (tuple(fr), tuple(hp), gh)


def gkind(g):
    if isinstance(g, V):
        return kind(g, None, ())
    if isinstance(g, Lin):
        return "lin"
    if isinstance(g, tuple):
        return tuple(gkind(x) for x in g)
    if isinstance(g, frozenset):
        return "set"
    return g


class Joiner:
    def __init__(self, H, S, head):
        self.H = H
        self.S = S
        self.extra = ()           # further positions to relate to
        self.head = head          # set of symbols owned by the head
        self.sig = {}             # head symbol -> Lin in S
        self.map = {}             # (Lin in H, Lin in S) -> Lin joined
        self.new = {}             # new symbol -> (lH, lS)
        self.pairs = []           # all encountered pairs of ints
        self.changed = False
        self.chpairs = []         # (src, pH, pS)

    # pass 1: define sigma
    def sigma(self, a, b):
        ta, tb = type(a), type(b)
        if is_int(a) and is_int(b):
            self.siglin(as_lin(a), as_lin(b))
        elif ta is tb and ta in (Ch, Od):
            self.siglin(a.p, b.p)
        elif ta is tb is Tup and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                self.sigma(x, y)
        elif ta is tb is St and len(a.items) == len(b.items):
            for x, y in zip(a.items, b.items):
                if x[0] == y[0] == "sl" and x[1] == y[1]:
                    self.siglin(x[2], y[2])
                    self.siglin(x[3], y[3])

    def siglin(self, l1, l2):
        if len(l1.t) == 1 and l1.c == 0 and l1.t[0][1] == 1 and l1.t[0][0] in self.head:
            self.sig.setdefault(l1.t[0][0], l2)

    def lin(self, l1, l2):
        """Joined Lin of a pair."""
        l1s = l1.subst(self.sig) if self.sig else l1
        if l1s == l2:
            self.pairs.append((l1, l1, l2))
            return l1
        # the same modulo S's equalities?
        key = (l1, l2)
        if key in self.map:
            return self.map[key]
        # offset from an existing pair
        for (a, b), j in list(self.map.items()):
            d1, d2 = l1 - a, l2 - b
            if not d1.t and not d2.t and d1.c == d2.c:
                r = j + d1.c
                self.map[key] = r
                self.pairs.append((r, l1, l2))
                return r
        d = l1s - l2
        if d.t and self.S.entails(d) and self.S.entails(d.neg()):
            self.pairs.append((l1, l1, l2))
            self.map[key] = l1
            return l1
        n = fresh("w")
        self.new[n] = (l1, l2)
        r = symlin(n)
        self.map[key] = r
        self.pairs.append((r, l1, l2))
        self.changed = True
        return r

    def val(self, a, b, slot=None):
        ta, tb = type(a), type(b)
        if is_int(a) and is_int(b):
            return I_(self.lin(as_lin(a), as_lin(b)))
        if a == b and ta in (K, Fn, Cl, Md, Ext, Src, Nat, Obj, Sy, Gen, CMgr, Top):
            return a
        if ta is tb and ta in (Ch, Od) and a.src == b.src:
            p = self.lin(a.p, b.p)
            self.chpairs.append((a.src, a.p, b.p, p))
            return ta(a.src, p)
        if is_str(a) and is_str(b):
            return self.string(a, b, slot)
        if ta is tb is Tup and len(a.items) == len(b.items):
            return Tup(tuple(self.val(x, y, slot) for x, y in zip(a.items, b.items)))
        if ta is tb is Bm and a.f == b.f:
            return Bm(self.val(a.self_, b.self_, slot), a.f)
        if ta is tb is BM and a.name == b.name:
            return BM(self.val(a.base, b.base, slot), a.name)
        if ta is Sy or tb is Sy or ta is Top or tb is Top or is_str(a) or is_str(b):
            if ta is Top:
                return a
            if ta is Sy and isinstance(a.t, tuple) and a.t[0] == "j" and a.t[1] == slot:
                self.joinfact(a.t, a, b, first=False)
                return a
            if slot is not None and (ta is Sy or tb is Sy):
                self.changed = True
                t = ("j", slot)
                self.joinfact(t, a, b, first=True)
                return Sy(t)
        self.changed = True
        if ta in (K, Obj, Cl, Fn) and tb in (K, Obj, Cl, Fn):
            # two unrelated values in one slot
            t = ("j", slot)
            self.joinfact(t, a, b, first=True)
            return Sy(t)
        return Top("join")

    def joinfact(self, t, a, b, first):
        fa = value_fact(a, self.H)
        fb = value_fact(b, self.S)
        ty = None if fa.types is None or fb.types is None else fa.types | fb.types
        f = Fact(ty, fa.neg & fb.neg, fa.truth if fa.truth == fb.truth else None, fa.ne & fb.ne)
        if not hasattr(self, "jf"):
            self.jf = {}
        self.jf[t] = f

    def string(self, a, b, slot):
        x = strs.atoms_of(a, self.H)
        y = strs.atoms_of(b, self.S)
        if len(x) == len(y) and all(
                p[0] == q[0] and (p == q or (p[0] == "sl" and p[1] == q[1])) for p, q in zip(x, y)):
            out = []
            for p, q in zip(x, y):
                if p[0] == "sl":
                    out.append(("sl", p[1], self.lin(p[2], q[2]), self.lin(p[3], q[3])))
                else:
                    out.append(p)
            return strs.mk(out)
        x = strs.debrick(x, self.H)
        y = strs.debrick(y, self.S)
        x = atoms_norm(x)
        y = atoms_norm(y)
        if strs.seq_leq(y, x):
            return strs.mk(x)
        w = strs.mk(strs.widen(x, y, slot))
        if w != strs.mk(x):
            self.changed = True
        return w

    # -------------------------------------------------------------- records
    def rec(self, a, r, s):
        if isinstance(r, Inst) and isinstance(s, Inst):
            f = {}
            for n in r.f:
                if n in s.f:
                    f[n] = self.val(r.f[n], s.f[n], ("h", a, n))
                else:
                    self.changed = True
            for n in s.f:
                if n not in r.f and r.ci is not None:
                    self.changed = True
            nt = r.nt
            if r.nt is not None and s.nt is not None:
                nt = self.val(r.nt, s.nt, ("n", a))
            if r.ci is not None and r.ci is not s.ci:
                self.changed = True
            return Inst(r.ci if r.ci is s.ci else None, f, r.many or s.many, nt)
        if isinstance(r, LRec) and isinstance(s, LRec):
            return self.lrec(a, r, s)
        if isinstance(r, DRec) and isinstance(s, DRec):
            return self.drec(a, r, s)
        if isinstance(r, SRec) and isinstance(s, SRec):
            items = set()
            sub = lambda v: map_v(v, lambda e: e.subst(self.sig))  # noqa: E731
            smap = set(s.items)
            for v in r.items:
                if sub(v) in smap:
                    items.add(v)
            rest = None
            extra_r = r.items - items
            extra_s = s.items - {sub(v) for v in items}
            if r.rest is not None or s.rest is not None or extra_r or extra_s:
                rest = (r.rest or frozenset()) | frozenset(generalize(v, self) for v in extra_r) | frozenset(
                    generalize(v, self) for v in (s.rest or ())) | frozenset(generalize(v, self) for v in extra_s)
            out = SRec(frozenset(items), rest, r.org, r.froz, r.some and s.some)
            if out != r:
                self.changed = True
            return out
        self.changed = True
        return r

    def lrec(self, a, r, s):
        H, S = self.H, self.S
        if len(r.tail) == len(s.tail) and r.exact() and s.exact() and all(
                kind(x, ("h",), ()) == kind(y, ("h",), ()) for x, y in zip(r.tail, s.tail)):
            return LRec(r.pre, tuple(self.val(x, y, ("l", a, i)) for i, (x, y) in enumerate(zip(r.tail, s.tail))),
                        r.pairs, r.plast, r.org, r.pmin)
        r0 = r
        pre = dict(r.pre)
        for v, m in s.pre:
            w = self.prevalue(v)
            pre[w] = max(pre.get(w, 0), m)
        out = LRec(frozenset(pre.items()), (), r.pairs | s.pairs, r.plast | s.plast, r.org, min(r.pmin, s.pmin))
        if out != r0:
            self.changed = True
        return out

    def prevalue(self, v):
        return v

    def drec(self, a, r, s):
        items = []
        rest = set(r.rest or ())
        restk = set(r.restk)
        hasrest = r.rest is not None or s.rest is not None
        sk = dict(s.items)
        for k, v in r.items:
            if k in sk:
                items.append((k, self.val(v, sk[k], ("d", a, repr(k)))))
            else:
                hasrest = True
                rest.add(generalize(v, self))
                restk.add(generalize(k, self))
        rk = dict(r.items)
        for k, v in s.items:
            if k not in rk:
                hasrest = True
                rest.add(generalize(v, self))
                restk.add(generalize(k, self))
        rest |= {generalize(v, self) for v in (s.rest or ())}
        restk |= set(s.restk)
        out = DRec(tuple(items), frozenset(rest) if hasrest else None, r.org, frozenset(restk))
        if out != r:
            self.changed = True
        return out

    # -------------------------------------------------------------- whole states
    def run(self):
        H, S = self.H, self.S
        R = State()
        R.trail = H.trail
        R.approx = H.approx | S.approx
        if R.approx != H.approx:
            self.changed = True
        # lists of different shape are folded first (this may rename objects)
        for a in list(H.heap):
            r, s = H.heap.get(a), S.heap.get(a)
            if isinstance(r, LRec) and isinstance(s, LRec):
                same = len(r.tail) == len(s.tail) and r.exact() and s.exact() and all(
                    kind(x, ("h",), ()) == kind(y, ("h",), ()) for x, y in zip(r.tail, s.tail))
                if not same:
                    for T in (H, S):
                        while T.heap[a].tail:
                            T.heap[a] = fold_first(T, a, T.heap[a])
                    if r.tail:
                        self.changed = True
        # sigma
        for fid, d in H.frames.items():
            e = S.frames.get(fid, {})
            for n in d:
                if n in e:
                    self.sigma(d[n], e[n])
        for a, r in H.heap.items():
            s = S.heap.get(a)
            if isinstance(r, Inst) and isinstance(s, Inst):
                for n in r.f:
                    if n in s.f:
                        self.sigma(r.f[n], s.f[n])
                if r.nt is not None and s.nt is not None:
                    self.sigma(r.nt, s.nt)
            elif isinstance(r, LRec) and isinstance(s, LRec) and len(r.tail) == len(s.tail):
                for x, y in zip(r.tail, s.tail):
                    self.sigma(x, y)
        for k, g in H.ghost.items():
            if k in S.ghost:
                self.sigghost(g, S.ghost[k])
        # values
        for fid, d in H.frames.items():
            e = S.frames.get(fid)
            if e is None:
                continue
            nd = {}
            for n, v in d.items():
                if n in e:
                    nd[n] = self.val(v, e[n], ("f", fid, n))
                else:
                    self.changed = True
            R.frames[fid] = nd
        heap = {}
        for a in list(H.heap):
            if a in S.heap:
                heap[a] = self.rec(a, H.heap[a], S.heap[a])
        for a in list(H.heap):
            if a not in heap:
                if isinstance(a, Sy):
                    self.changed = True
                    continue
                heap[a] = H.heap[a]
        for a in list(S.heap):
            if a not in heap and not isinstance(a, Sy):
                heap[a] = S.heap[a]
                self.changed = True
        R.heap = heap
        for k in H.ghost:
            if k in S.ghost:
                R.ghost[k] = self.ghost(H.ghost[k], S.ghost[k])
        R.hidden = H.hidden
        # constraints
        self.constraints(R)
        self.charfacts(R)
        # facts
        jf = getattr(self, "jf", {})
        for t, f in H.facts.items():
            g = S.facts.get(t)
            if t in jf or f == NOFACT:
                continue
            if g is None:
                if f.types is not None and fresh_term(t) and t not in self.mentions(S):
                    R.facts[t] = f.with_(truth=None, const=None) if f.truth is not None or f.const is not None else f
                    if R.facts[t] != f:
                        self.changed = True
                    continue
                self.changed = True
                continue
            if f == g:
                R.facts[t] = f
                continue
            ty = None if f.types is None or g.types is None else f.types | g.types
            j = Fact(ty, f.neg & g.neg, f.truth if f.truth == g.truth else None, f.ne & g.ne)
            if j != f:
                self.changed = True
            R.facts[t] = j
        for t, f in S.facts.items():
            if t not in H.facts and t not in jf and f.types is not None and fresh_term(t) \
                    and t not in self.mentions(H):
                R.facts[t] = f.with_(truth=None, const=None) if f.truth is not None or f.const is not None else f
                self.changed = True
        for t, f in jf.items():
            if f != NOFACT:
                R.facts[t] = f
            if H.facts.get(t, NOFACT) != f:
                self.changed = True
        return R

    def mentions(self, st):
        """Terms of all symbolic values of the state."""
        c = self.__dict__.setdefault("_ment", {})
        m = c.get(id(st))
        if m is None:
            m = set()
            done = set()

            def walk(x):
                if isinstance(x, (V, tuple, frozenset)) and not isinstance(x, (Fn, Cl)):
                    if x in done:
                        return
                    done.add(x)
                    if isinstance(x, Sy):
                        m.add(x.t)
                    if isinstance(x, V):
                        for f in x.fields:
                            walk(getattr(x, f))
                    else:
                        for y in x:
                            walk(y)
            for d in st.frames.values():
                for v in d.values():
                    walk(v)
            for r in st.heap.values():
                for n in r.__slots__ if hasattr(r, "__slots__") else ():
                    y = getattr(r, n, None)
                    if isinstance(y, dict):
                        for v in y.values():
                            walk(v)
                    else:
                        walk(y)
            for g in st.ghost.values():
                walk(g)
            for k in st.facts:
                if not fresh_term(k):
                    walk(k)
            c[id(st)] = m
        return m

    def sigghost(self, g, h):
        if isinstance(g, V) and isinstance(h, V):
            self.sigma(g, h)
        elif isinstance(g, Lin) and isinstance(h, Lin):
            self.siglin(g, h)
        elif isinstance(g, tuple) and isinstance(h, tuple) and len(g) == len(h):
            for x, y in zip(g, h):
                self.sigghost(x, y)

    def ghost(self, g, h):
        if isinstance(g, V) and isinstance(h, V):
            return self.val(g, h, ("g",))
        if isinstance(g, Lin) and isinstance(h, Lin):
            return self.lin(g, h)
        if isinstance(g, tuple) and isinstance(h, tuple) and len(g) == len(h):
            return tuple(self.ghost(x, y) for x, y in zip(g, h))
        if isinstance(g, frozenset) and isinstance(h, frozenset):
            u = g | h
            if u != g:
                self.changed = True
            return u
        if g != h:
            self.changed = True
            return "?"
        return g

    def constraints(self, R):
        H, S = self.H, self.S
        c = Cons()
        sig = self.sig
        weak = set()
        for f in H.cons.fs:
            fs = f.subst(sig) if sig else f
            if S.entails(fs):
                n = c.add(f)
                c = n if n is not None else c
            else:
                self.changed = True
                weak.update(f.syms())
        refs = []
        seen = set()
        for (j, l1, l2) in self.pairs:
            if j not in seen:
                seen.add(j)
                refs.append((j, l1, l2))
        refs.append((lin(0), lin(0), lin(0)))
        for src in sorted({s for s, _ in H.chars} | {s for s, _ in S.chars} | srcs(H)):
            L = len_sym(src)
            refs.append((L, L, L))
        # sums of two int fields of one object (index + peek_offset)
        for a, r in R.heap.items():
            if isinstance(r, Inst) and a in H.heap and a in S.heap:
                ints = [n for n, v in r.f.items() if is_int(v)]
                for i, n1 in enumerate(ints):
                    for n2 in ints[i + 1:]:
                        hr, sr = H.heap[a], S.heap[a]
                        if all(n in x.f and is_int(x.f[n]) for n in (n1, n2) for x in (hr, sr)):
                            j = as_lin(r.f[n1]) + as_lin(r.f[n2])
                            if j not in seen:
                                seen.add(j)
                                refs.append((j, as_lin(hr.f[n1]) + as_lin(hr.f[n2]),
                                             as_lin(sr.f[n1]) + as_lin(sr.f[n2])))
        for k, g in H.ghost.items():
            if isinstance(k, tuple) and k and k[0] == "prog" and k in S.ghost:
                for e1, e2, j in zip(glins(g), glins(S.ghost[k]), glins(R.ghost[k])):
                    if j.t and j not in seen:
                        seen.add(j)
                        refs.append((j, e1, e2))
        for e in self.extra:
            if e.t and e not in seen:
                seen.add(e)
                refs.append((e, e, e))
        self.refs = refs
        if weak:
            # consequences of the lost facts that still hold
            for m in sorted(weak):
                e = symlin(m)
                if e not in seen and not m.startswith("len:"):
                    seen.add(e)
                    refs.append((e, e, e.subst(sig)))
        news = [(r, x, y) for (r, x, y) in refs if any(s in self.new or s in weak for s in r.syms())]
        for (j, l1, l2) in news:
            for (k, m1, m2) in refs:
                if k == j:
                    continue
                for sgn in (1, -1):
                    e = (j - k).scale(sgn)
                    if not e.t:
                        continue
                    e1, e2 = (l1 - m1).scale(sgn), (l2 - m2).scale(sgn)
                    b1 = e1.c if not e1.t else H.lower(e1)
                    if b1 is None:
                        continue
                    b2 = e2.c if not e2.t else S.lower(e2)
                    if b2 is None:
                        continue
                    b = min(b1, b2)
                    n = c.add(e - b)
                    if n is not None:
                        c = n
        R.cons = c

    def charfacts(self, R):
        H, S = self.H, self.S
        sig = self.sig
        out = {}
        def keep(src, pj, p1, p2):
            if (src, pj) in out:
                return
            c1 = H.char(src, p1)
            c2 = S.char(src, p2)
            c = c1 | c2
            if c != ANY:
                out[(src, pj)] = c
        for (src, p), c in H.chars.items():
            keep(src, p, p, p.subst(sig) if sig else p)
        for (src, p1, p2, p) in self.chpairs:
            keep(src, p, p1, p2)
            keep(src, p + 1, p1 + 1, p2 + 1)
        ss = srcs(H)
        for (j, l1, l2) in self.refs:
            if not j.t or j.t[0][0].startswith("len:"):
                continue
            if any(s in self.new for s in j.syms()):
                for src in ss:
                    for off in (-1, 0, 1):
                        keep(src, j + off, l1 + off, l2 + off)
        for (j, l1, l2) in self.refs:
            # facts the head only had as a consequence of its constraints
            if j.t:
                for off in (-1, 0, 1):
                    for src in ss:
                        if (src, l2 + off) in S.chars and (src, j + off) not in out:
                            keep(src, j + off, l1 + off, l2 + off)
        for k, c in out.items():
            # what an EOF-free fact says about the length is kept by the fact itself
            if not R.char(*k).issubset(c):
                R.chars[k] = c
        for k, c in H.chars.items():
            if out.get(k) != c and not R.char(*k).issubset(H.char(*k)):
                self.changed = True
        # ranges
        rout = {}
        for (src, a, b), c in H.ranges.items():
            c2 = S.range_cs(src, a.subst(sig) if sig else a, b.subst(sig) if sig else b)
            u = c | c2
            if (u & BIG) != BIG:
                rout[(src, a, b)] = u
            if u != c:
                self.changed = True
        news = [(r, x, y) for (r, x, y) in self.refs if any(s in self.new for s in r.syms())]
        for (j, l1, l2) in news:
            for (k, m1, m2) in self.refs:
                if k == j or not k.t and k.c == 0 and False:
                    continue
                for (lo, hi, lo1, hi1, lo2, hi2) in ((k, j, m1, l1, m2, l2), (j, k, l1, m1, l2, m2)):
                    if lo.t and lo.t[0][0].startswith("len:") or hi.t and hi.t[0][0].startswith("len:"):
                        continue
                    d1, d2 = hi1 - lo1, hi2 - lo2
                    if not H.entails(d1) or not S.entails(d2):
                        continue
                    for src in ss:
                        if (src, lo, hi) in rout:
                            continue
                        c1 = H.range_cs(src, lo1, hi1)
                        c2 = S.range_cs(src, lo2, hi2)
                        u = c1 | c2
                        if not (ANYCH.issubset(u)) and u:
                            rout[(src, lo, hi)] = u
        R.ranges = rout


def fresh_term(t):
    """Named when the value is made: without a mention in a state it means nothing there."""
    return isinstance(t, tuple) and t and t[0] == "c"


def glins(g):
    if isinstance(g, Lin):
        return [g]
    if isinstance(g, tuple):
        return [e for x in g for e in glins(x)]
    return []


def srcs(st):
    out = set(s for s, _ in st.chars)
    for r in st.heap.values():
        if isinstance(r, Inst):
            for v in r.f.values():
                if isinstance(v, Src):
                    out.add(v.name)
    for d in st.frames.values():
        for v in d.values():
            if isinstance(v, Src):
                out.add(v.name)
    return out


def atoms_norm(x):
    v = strs.mk(x)
    if isinstance(v, K):
        return strs.lit_atoms(v.v)
    if isinstance(v, St):
        return v.items
    return (("v", v),)


def generalize(v, joiner=None):
    """A value usable in summaries: no position-dependent parts."""
    return v


def value_fact(v, st):
    t = type(v)
    if t is Sy:
        return st.fact(v.t)
    if t is K:
        n = "NoneType" if v.v is None else type(v.v).__name__
        return Fact(frozenset([("builtins." + n, ())]), truth=bool(v.v))
    if t in (I, Od):
        return Fact(frozenset([("builtins.int", ())]))
    if t in (St, Ch, Src):
        return Fact(frozenset([("builtins.str", ())]), truth=True if t is Ch else None)
    if t is Obj:
        r = st.heap.get(v.a)
        if isinstance(r, Inst) and r.ci:
            return Fact(frozenset([(r.ci.qual, ())]), truth=True)
        if isinstance(r, LRec):
            return Fact(frozenset([("builtins.list", ())]))
        if isinstance(r, DRec):
            return Fact(frozenset([("builtins.dict", ())]))
    if t is Tup:
        return Fact(frozenset([("builtins.tuple", ())]))
    return NOFACT


# ---------------------------------------------------------------- list folding
def tag_of(st, v):
    """Class-like tag of a list element."""
    if isinstance(v, Obj):
        r = st.heap.get(v.a)
        if isinstance(r, Inst) and r.ci:
            return r.ci.name
        return type(r).__name__
    if is_str(v):
        return "str"
    if isinstance(v, Sy):
        f = st.fact(v.t)
        if f.types and len(f.types) == 1:
            return next(iter(f.types))[0]
        return "?"
    return type(v).__name__


def disc(st, v):
    """Discriminator of summary objects: class and boolean/None fields."""
    r = st.heap.get(v.a)
    if not isinstance(r, Inst):
        return (type(r).__name__,)
    d = []
    for n, x in sorted(r.f.items()):
        if isinstance(x, K) and (x.v is None or isinstance(x.v, bool)):
            d.append((n, x.v))
        elif isinstance(x, Obj):
            y = st.heap.get(x.a)
            if isinstance(y, Inst) and y.ci and n == "expression":
                d.append((n, y.ci.name))
    return (r.ci.qual if r.ci else None,) + tuple(d)


def fold_value(st, laddr, v):
    """Replace an element by its summary; returns the summary value."""
    if isinstance(v, Obj):
        if isinstance(v.a, tuple) and v.a and v.a[0] == "sum":
            return v
        r = st.heap.get(v.a)
        if isinstance(r, Inst):
            na = ("sum", laddr if not isinstance(laddr, tuple) else str(laddr), disc(st, v))
            merge_into(st, v.a, na)
            return Obj(na)
        return v
    if is_str(v):
        x = strs.debrick(strs.atoms_of(v, st), st)
        return strs.mk(x)
    if is_int(v):
        if isinstance(v, I):
            return Sy(("int",))
        return v
    return v


def merge_into(st, a, na):
    """Fold object a into summary na (weak)."""
    r = st.heap[a]
    if na not in st.heap:
        st.rename_addr(a, na)
        return
    s = st.heap[na]
    if a == na:
        return
    # everything that referred to a now refers to the summary
    m = merge_recs(st, s, r, na)
    st.heap[na] = m
    del st.heap[a]
    f = lambda x: na if x == a else x  # noqa: E731
    fv = lambda v: map_v(v, lambda e: e, f)  # noqa: E731
    for d in st.frames.values():
        for n, v in d.items():
            if type(v) in (Obj, Tup, Bm, BM, Sup, Part, St):
                d[n] = fv(v)
    for b in list(st.heap):
        x = set()
        for v in rec_values(st.heap[b]):
            addrs_of(v, x)
        if a in x:
            st.heap[b] = map_rec(st.heap[b], fv)
    st.ghost = {k: map_ghost(g, lambda e: e, f) for k, g in st.ghost.items()}


def merge_recs(st, s, r, na):
    """Join of two records within one state."""
    if isinstance(s, Inst) and isinstance(r, Inst):
        f = {}
        for n in s.f:
            if n in r.f:
                f[n] = merge_vals(st, s.f[n], r.f[n], (na, n))
        return Inst(s.ci if s.ci is r.ci else None, f, True, s.nt if s.nt == r.nt else None)
    if isinstance(s, LRec) and isinstance(r, LRec):
        s1, r1 = s, r
        while s1.tail:
            s1 = fold_first(st, na, s1)
        while r1.tail:
            r1 = fold_first(st, na, r1)
        pre = dict(s1.pre)
        for v, m in r1.pre:
            pre[v] = 2
        return LRec(frozenset(pre.items()), (), s1.pairs | r1.pairs, s1.plast | r1.plast, s1.org, min(s1.pmin, r1.pmin))
    return s


def merge_vals(st, a, b, slot):
    if a == b:
        return a
    if is_int(a) and is_int(b):
        l1, l2 = as_lin(a), as_lin(b)
        n = fresh("m")
        e = symlin(n)
        refs = {lin(0)}
        for x in st.all_lins():
            refs.add(x)
        for src in srcs(st):
            refs.add(len_sym(src))
        adds = []
        for k in refs:
            for sgn in (1, -1):
                b1 = st.lower((l1 - k).scale(sgn), -1, 1)
                if b1 is None:
                    continue
                b2 = st.lower((l2 - k).scale(sgn), -1, 1)
                if b2 is None:
                    continue
                adds.append((e - k).scale(sgn) - min(b1, b2))
        c = st.cons
        for x in adds:
            if x.t:
                n2 = c.add(x)
                if n2 is not None:
                    c = n2
        st.cons = c
        return I(e)
    if is_str(a) and is_str(b):
        x = atoms_norm(strs.debrick(strs.atoms_of(a, st), st))
        y = atoms_norm(strs.debrick(strs.atoms_of(b, st), st))
        return strs.mk(strs.widen(x, y))
    if isinstance(a, Obj) and isinstance(b, Obj):
        ra, rb = st.heap.get(a.a), st.heap.get(b.a)
        if ra is not None and rb is not None and type(ra) is type(rb):
            if isinstance(ra, Inst) and ra.ci is not rb.ci:
                return Sy(("mix", slot))
            na = ("sum", "m", slot[0] if isinstance(slot[0], str) else str(slot[0]), slot[1])
            if a.a != na:
                if na in st.heap and b.a == na:
                    merge_into(st, a.a, na)
                    return Obj(na)
                if na in st.heap:
                    merge_into(st, a.a, na)
                else:
                    st.heap[na] = ra
            rb = st.heap.get(b.a)
            if b.a != na and rb is not None:
                st.heap[na] = merge_recs(st, st.heap[na], rb, na)
            return Obj(na)
    if isinstance(a, K) and a.v is None and isinstance(b, Obj) or isinstance(b, K) and b.v is None and isinstance(a, Obj):
        return Sy(("opt", slot))
    return Sy(("mix", slot))


def fold_first(st, laddr, l):
    """Move the first tail element into the summary part."""
    v = l.tail[0]
    t = tag_of(st, v)
    pairs = l.pairs
    if l.pre or l.plast:
        pairs = pairs | {(p, t) for p in l.plast}
    w = fold_value(st, laddr, v)
    cur = st.heap.get(laddr)
    pre = dict(l.pre)
    pre[w] = 2 if w in pre else 1
    return LRec(frozenset(pre.items()), l.tail[1:], pairs, frozenset([t]), l.org, 1)


def append_list(st, laddr, l, v, maxtail=2):
    l = LRec(l.pre, l.tail + (v,), l.pairs, l.plast, l.org, l.pmin)
    return l


def list_pairs(st, l):
    """All (tag, tag) adjacencies of the list."""
    out = set(l.pairs)
    tags = [tag_of(st, v) for v in l.tail]
    if tags and (l.pre or l.plast):
        out |= {(p, tags[0]) for p in l.plast}
    out |= set(zip(tags, tags[1:]))
    return out


def join(H, S, head, hook=None, extra=()):
    j = Joiner(H.fork(), S.fork(), head)
    j.extra = extra
    R = j.run()
    return R, j.changed, set(j.new), j
