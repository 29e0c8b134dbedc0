"""Abstract states: frames, heap, facts about the characters of the source text,
linear constraints between positions, type facts about symbolic values."""
from itertools import count

from .charset import CS, ANY, ANYCH, EOF, EOFSET, CRX, CRS, CRXSET, LF, NONE as CS_NONE
from .linear import Cons, Lin, lin, symlin
from .values import *  # noqa
from .values import V

CR13 = CS(((13, 13),))
_fresh = count()


def fresh(prefix="n"):
    return "%s.%d" % (prefix, next(_fresh))


def reset_fresh():
    global _fresh
    _fresh = count()


# ---------------------------------------------------------------- heap records
class Rec:
    __slots__ = ("_k",)

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key() == o.key())

    def __hash__(self):
        return hash(self.key())

    def key(self):
        try:
            return self._k
        except AttributeError:
            self._k = self._mkkey()
            return self._k


class Inst(Rec):
    """Instance of a repo class (ci) or symbolic overlay (ci None)."""
    __slots__ = ("ci", "f", "many", "nt")

    def __init__(self, ci, f, many=False, nt=None):
        self.ci = ci
        self.f = f
        self.many = many
        self.nt = nt        # native value part (for classes deriving from int, str, ...)

    def _mkkey(self):
        return (id(self.ci), frozenset(self.f.items()), self.many, self.nt)

    def set(self, n, v):
        f = dict(self.f)
        f[n] = v
        return Inst(self.ci, f, self.many, self.nt)

    def drop(self, n):
        f = dict(self.f)
        f.pop(n, None)
        return Inst(self.ci, f, self.many, self.nt)

    def __repr__(self):
        return "<%s%s %r>" % (self.ci.name if self.ci else "?", "*" if self.many else "", self.f)


class LRec(Rec):
    """List: summary part `pre` (set of (value, multiplicity 1/2)), then the exact `tail`.
    pairs: (tag, tag) adjacencies in pre and between pre and tail; plast: tags of pre's last."""
    __slots__ = ("pre", "tail", "pairs", "plast", "org", "pmin")

    def __init__(self, pre=frozenset(), tail=(), pairs=frozenset(), plast=frozenset(), org=None, pmin=0):
        self.pre = pre
        self.tail = tail
        self.pairs = pairs
        self.plast = plast
        self.org = org
        self.pmin = pmin       # minimal number of elements in pre (0/1)

    def _mkkey(self):
        return (self.pre, self.tail, self.pairs, self.plast, self.org, self.pmin)

    def exact(self):
        return not self.pre and self.org is None

    def elems(self):
        return [v for v, _ in sorted(self.pre, key=repr)] + list(self.tail)

    def minlen(self):
        return self.pmin + len(self.tail)

    def __repr__(self):
        return "L[pre=%s tail=%r org=%r]" % (sorted(map(repr, self.pre)), self.tail, self.org)


class DRec(Rec):
    """Dict. items: exact entries; rest: values of other (unknown-key) entries or None;
    org: symbolic origin."""
    __slots__ = ("items", "rest", "org", "restk")

    def __init__(self, items=(), rest=None, org=None, restk=frozenset()):
        self.items = items      # tuple of (K, V)
        self.rest = rest        # None or frozenset of V
        self.restk = restk      # keys of the rest
        self.org = org

    def _mkkey(self):
        return (frozenset(self.items), self.rest, self.org, self.restk)

    def get(self, k):
        for kk, v in self.items:
            if kk == k:
                return v
        return None

    def set(self, k, v):
        return DRec(tuple((a, b) for a, b in self.items if a != k) + ((k, v),), self.rest, self.org, self.restk)

    def __repr__(self):
        return "D{%s rest=%r org=%r}" % (", ".join("%r: %r" % x for x in self.items), self.rest, self.org)


class SRec(Rec):
    """Set. items: members for sure; rest: possible other members or None."""
    __slots__ = ("items", "rest", "org", "froz", "some")

    def __init__(self, items=frozenset(), rest=None, org=None, froz=False, some=False):
        self.some = bool(some or items)     # certainly not empty
        self.items = items
        self.rest = rest
        self.org = org
        self.froz = froz

    def _mkkey(self):
        return (self.items, self.rest, self.org, self.some)

    def __repr__(self):
        return "S{%r rest=%r org=%r}" % (self.items, self.rest, self.org)


class Fact(Rec):
    """What is known about a symbolic value."""
    __slots__ = ("types", "neg", "truth", "ne", "const")

    def __init__(self, types=None, neg=frozenset(), truth=None, ne=frozenset(), const=None):
        self.types = types      # frozenset of exact (class name, args) or None
        self.neg = neg          # type names it is not an instance of
        self.truth = truth
        self.ne = ne            # constants it is not equal to
        self.const = const      # the constant it is known to equal

    def _mkkey(self):
        return (self.types, self.neg, self.truth, self.ne, self.const)

    def with_(self, **kw):
        d = dict(types=self.types, neg=self.neg, truth=self.truth, ne=self.ne, const=self.const)
        d.update(kw)
        return Fact(**d)

    def __repr__(self):
        return "Fact(%s neg=%s truth=%s ne=%s)" % (self.types, set(self.neg), self.truth, set(self.ne))


NOFACT = Fact()


# ---------------------------------------------------------------- mapping helpers
def subst_term(t, old, new):
    """Replace a sub-term of a symbolic term."""
    if t == old:
        return new
    if isinstance(t, tuple):
        r = tuple(subst_term(x, old, new) for x in t)
        return r if r != t else t
    if isinstance(t, frozenset):
        r = frozenset(subst_term(x, old, new) for x in t)
        return r if r != t else t
    if isinstance(t, V):
        return map_sy(t, old, new)
    return t


def map_sy(v, old, new):
    t = type(v)
    if t is Sy:
        n = subst_term(v.t, old, new)
        return v if n is v.t else Sy(n)
    if t is Tup:
        return Tup(tuple(map_sy(x, old, new) for x in v.items))
    if t is St:
        return St(subst_term(v.items, old, new))
    if t is Bm:
        return Bm(map_sy(v.self_, old, new), v.f)
    if t is BM:
        return BM(map_sy(v.base, old, new), v.name)
    if t is Obj:
        n = subst_term(v.a, old, new) if isinstance(v.a, Sy) else v.a
        return Obj(n)
    if t is Ex:
        return Ex(v.q, tuple(map_sy(x, old, new) for x in v.args))
    if t is Part:
        return Part(map_sy(v.f, old, new), tuple(map_sy(x, old, new) for x in v.args),
                    tuple((k, map_sy(x, old, new)) for k, x in v.kw))
    return v


def map_v(v, fl, fa=None):
    """Rebuild v with every Lin mapped by fl and every heap address by fa."""
    t = type(v)
    if t in (K, Cl, Md, Ext, Src, Nat, Top):
        return v
    if t is Sy:
        return v
    if t is Ex:
        return Ex(v.q, tuple(map_v(x, fl, fa) for x in v.args))
    if t is I:
        return I_(fl(v.e))
    if t is Ch:
        return Ch(v.src, fl(v.p))
    if t is Od:
        return Od(v.src, fl(v.p))
    if t is St:
        return St(tuple(map_atom(a, fl, fa) for a in v.items))
    if t is Obj:
        return Obj(fa(v.a)) if fa else v
    if t is Tup:
        return Tup(tuple(map_v(x, fl, fa) for x in v.items))
    if t is Bm:
        return Bm(map_v(v.self_, fl, fa), v.f)
    if t is BM:
        return BM(map_v(v.base, fl, fa), v.name)
    if t is Sup:
        return Sup(v.ci, map_v(v.self_, fl, fa))
    if t is Part:
        return Part(map_v(v.f, fl, fa), tuple(map_v(x, fl, fa) for x in v.args),
                    tuple((k, map_v(x, fl, fa)) for k, x in v.kw))
    return v


def map_atom(a, fl, fa):
    k = a[0]
    if k == "sl":
        return ("sl", a[1], fl(a[2]), fl(a[3]))
    if k == "v":
        return ("v", map_v(a[1], fl, fa))
    if k == "*":
        return ("*", frozenset(tuple(map_atom(x, fl, fa) for x in alt) for alt in a[1]), a[2]) + a[3:]
    return a


def addrs_of(v, out):
    t = type(v)
    if t is Obj:
        out.add(v.a)
    elif t is Tup:
        for x in v.items:
            addrs_of(x, out)
    elif t in (Bm, Sup):
        addrs_of(v.self_, out)
    elif t is BM:
        addrs_of(v.base, out)
    elif t is St:
        for a in v.items:
            atom_addrs(a, out)
    elif t is Part:
        addrs_of(v.f, out)
        for x in v.args:
            addrs_of(x, out)
        for _, x in v.kw:
            addrs_of(x, out)
    elif t is Fn:
        if v.fid is not None:
            out.add(("frame", v.fid))
    elif t in (Gen, CMgr):
        out.add(("frame", v.fid))
    if t is Bm:
        addrs_of(v.f, out)
    if t is BM and isinstance(v.base, Sy):
        pass


def atom_addrs(a, out):
    if a[0] == "v":
        addrs_of(a[1], out)
    elif a[0] == "*":
        for alt in a[1]:
            for x in alt:
                atom_addrs(x, out)


def lins_of(v, out):
    t = type(v)
    if t is I:
        out.append(v.e)
    elif t in (Ch, Od):
        out.append(v.p)
    elif t is Tup:
        for x in v.items:
            lins_of(x, out)
    elif t is St:
        for a in v.items:
            atom_lins(a, out)
    elif t in (Bm, Sup):
        lins_of(v.self_, out)
    elif t is BM:
        lins_of(v.base, out)
    elif t is Part:
        for x in v.args:
            lins_of(x, out)


def atom_lins(a, out):
    if a[0] == "sl":
        out.append(a[2])
        out.append(a[3])
    elif a[0] == "v":
        lins_of(a[1], out)
    elif a[0] == "*":
        for alt in a[1]:
            for x in alt:
                atom_lins(x, out)


def rec_values(r):
    if isinstance(r, Inst):
        return list(r.f.values()) + ([r.nt] if r.nt is not None else [])
    if isinstance(r, LRec):
        return [v for v, _ in r.pre] + list(r.tail)
    if isinstance(r, DRec):
        return [x for kv in r.items for x in kv] + list(r.rest or ()) + list(r.restk)
    if isinstance(r, SRec):
        return list(r.items) + list(r.rest or ())
    return []


def map_rec(r, fv):
    if isinstance(r, Inst):
        return Inst(r.ci, {n: fv(v) for n, v in r.f.items()}, r.many, fv(r.nt) if r.nt is not None else None)
    if isinstance(r, LRec):
        pre = {}
        for v, m in r.pre:
            w = fv(v)
            pre[w] = 2 if w in pre else m
        return LRec(frozenset(pre.items()), tuple(fv(v) for v in r.tail), r.pairs, r.plast, r.org, r.pmin)
    if isinstance(r, DRec):
        return DRec(tuple((fv(k), fv(v)) for k, v in r.items),
                    None if r.rest is None else frozenset(fv(v) for v in r.rest), r.org,
                    frozenset(fv(v) for v in r.restk))
    if isinstance(r, SRec):
        return SRec(frozenset(fv(v) for v in r.items),
                    None if r.rest is None else frozenset(fv(v) for v in r.rest), r.org, r.froz, r.some)
    return r


def len_sym(src):
    return symlin("len:" + src)


class State:
    __slots__ = ("frames", "heap", "chars", "ranges", "cons", "facts", "ghost", "trail", "approx", "hidden")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.chars = {}
        self.ranges = {}
        self.cons = Cons()
        self.facts = {}
        self.ghost = {}
        self.trail = ()
        self.approx = frozenset()
        self.hidden = ()

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.chars = dict(self.chars)
        s.ranges = dict(self.ranges)
        s.cons = self.cons
        s.facts = dict(self.facts)
        s.ghost = dict(self.ghost)
        s.trail = self.trail
        s.approx = self.approx
        return s

    def key(self, chars=True):
        k = (frozenset((f, frozenset(d.items())) for f, d in self.frames.items()),
             frozenset(self.heap.items()), frozenset(self.facts.items()),
             frozenset(self.ghost.items()), frozenset(self.ranges.items()), self.cons.fs, self.approx)
        return (k, frozenset(self.chars.items())) if chars else k

    # ------------------------------------------------------------ characters
    def implied(self, src, p):
        """What the neighbours and the length tell about the character at p."""
        cs = ANY
        q = self.chars.get((src, p - 1))
        if q is not None and len(q.iv) == 1 and q.iv[0][0] == q.iv[0][1]:
            if q.iv[0][0] == CRX:
                return LF
            if q.iv[0][0] == 13:
                cs = ANY - LF
        q = self.chars.get((src, p + 1))
        if q is not None:
            if not q & LF:
                cs = cs - CRXSET
            elif q == LF:
                cs = cs - CR13
        for (s, lo, hi), c in self.ranges.items():
            if s == src and lo == p and hi != p:
                q = self.chars.get((src, hi))
                if q is not None and self.entails(hi - p):
                    cs = cs & (c | q)
                elif self.entails(hi - p - 1):
                    cs = cs & c
        return cs

    def char(self, src, p):
        cs = self.chars.get((src, p), ANY) & self.implied(src, p)
        if cs.iv and cs.iv[0][0] <= EOF and EOF in cs and cs != EOFSET:
            if self.entails(len_sym(src) - p - 1):
                cs = cs - EOFSET
            elif self.entails(p - len_sym(src)):
                cs = cs & EOFSET
        return cs

    def set_char(self, src, p, cs):
        """Refine; False if impossible."""
        if not self.char(src, p) & cs:
            return False
        n = self.chars.get((src, p), ANY) & cs
        imp = self.implied(src, p)
        k = (src, p)
        if imp.issubset(n):
            self.chars.pop(k, None)
        else:
            self.chars[k] = n
        # different characters stand at different positions
        m = n & imp
        for (s2, q), c in list(self.chars.items()):
            if s2 == src and q != p and not c & m:
                d = p - q
                if not d.t:
                    continue
                if not self.entails(d):
                    d = d.neg()
                    if not self.entails(d):
                        continue
                if not self.entails(d - 1):
                    cc = self.cons.add(d - 1)
                    if cc is None:
                        return False
                    self.cons = cc
        # a CR next to it becomes a CR LF pair or a lone CR
        pk = (src, p - 1)
        q = self.chars.get(pk)
        if q is not None and q & CRS and q.issubset(CRS):
            m = n & imp
            if m == LF:
                self.chars[pk] = q & CRXSET
                self.chars.pop(k, None)
            elif not m & LF:
                self.chars[pk] = q & CR13
                if (ANY - LF).issubset(n):
                    self.chars.pop(k, None)
        nk = (src, p + 1)
        q = self.chars.get(nk)
        if q is not None and n.issubset(CRS):
            if q == LF:
                self.chars[k] = CRXSET
                del self.chars[nk]
            elif not q & LF:
                self.chars[k] = CR13
        return True

    def entails(self, e):
        """e >= 0 ?"""
        if self.cons.entails(e):
            return True
        for s, k in e.t:
            if k > 0 and s.startswith("len:") and self.cons.entails(e - symlin(s).scale(k)):
                return True
        for s, k in e.t:
            if s.startswith("len:"):
                src = s[4:]
                if k == 1:
                    x = len_sym(src) - e        # e = len - x
                    for (sr, p), cs in self.chars.items():
                        if sr == src and EOF not in cs and self.cons.entails(p + (2 if cs == CRXSET else 1) - x):
                            return True
                elif k == -1:
                    x = e + len_sym(src)        # e = x - len
                    for (sr, p), cs in self.chars.items():
                        if sr == src and cs == EOFSET and self.cons.entails(x - p):
                            return True
        return False

    def lower(self, e, lo=-2, hi=2):
        if not e.t:
            return e.c
        if not self.entails(e - lo):
            return None
        r = lo
        while r < hi and self.entails(e - (r + 1)):
            r += 1
        return r

    def range_cs(self, src, a, b):
        """Charset covering all characters in [a, b)."""
        cur = a
        cs = CS_NONE
        for _ in range(60):
            if cur == b:
                return cs
            if self.cons.entails(cur - b) and not (cur - b).t:
                return cs
            best = None
            for (s, lo, hi), c in self.ranges.items():
                if s == src and lo == cur and hi != cur:
                    if best is None or hi == b:
                        best = (hi, c)
            if best and (best[0] == b or self.cons.entails(b - best[0])):
                cs = cs | best[1]
                cur = best[0]
                continue
            c = self.chars.get((src, cur))
            if c is None or not self.cons.entails(b - cur - 1):
                break
            cs = cs | (self.char(src, cur) - EOFSET)
            cur = cur + 1
        if self.cons.entails(a - b):
            return CS_NONE
        return ANYCH

    def ch_brick(self, src, p):
        """Charset of the one-character string at p as string content."""
        cs = self.char(src, p) - EOFSET
        return cs

    # ------------------------------------------------------------ linear facts
    def assume(self, e):
        """Add e >= 0; False if contradictory."""
        if self.entails(Lin(e.neg().t, e.neg().c - 1)):
            return False
        c = self.cons.add(e)
        if c is None:
            return False
        self.cons = c
        return True

    # ------------------------------------------------------------ facts
    def fact(self, t):
        return self.facts.get(t, NOFACT)

    # ------------------------------------------------------------ garbage
    def reachable(self, roots=None):
        seen = set()
        work = set()
        if roots is None:
            for d in self.frames.values():
                for v in d.values():
                    addrs_of(v, work)
            for v in self.hidden:
                addrs_of(v, work)
            for g in self.ghost.values():
                ghost_addrs(g, work)
        else:
            for v in roots:
                addrs_of(v, work)
        work = list(work)
        while work:
            a = work.pop()
            if a in seen:
                continue
            seen.add(a)
            new = set()
            if isinstance(a, tuple) and a and a[0] == "frame":
                for v in self.frames.get(a[1], {}).values():
                    addrs_of(v, new)
            r = self.heap.get(a)
            if r is not None:
                for v in rec_values(r):
                    addrs_of(v, new)
            work.extend(new - seen)
        return seen

    def gc(self, extra=()):
        """Drop unreachable heap objects (symbolic overlays stay)."""
        old = self.hidden
        self.hidden = tuple(old) + tuple(extra)
        live = self.reachable()
        self.hidden = old
        for a in list(self.heap):
            if a not in live and not isinstance(a, Sy):
                if isinstance(a, tuple) and a and a[0] == "static":
                    continue
                del self.heap[a]

    def all_lins(self, extra=()):
        out = []
        for d in self.frames.values():
            for v in d.values():
                lins_of(v, out)
        for r in self.heap.values():
            for v in rec_values(r):
                lins_of(v, out)
        for v in extra:
            lins_of(v, out)
        for g in self.ghost.values():
            ghost_lins(g, out)
        return out

    def map_all(self, fl, fa=None):
        """Apply renamings to the whole state, in place."""
        fv = lambda v: map_v(v, fl, fa)  # noqa: E731
        for d in self.frames.values():
            for n in d:
                d[n] = fv(d[n])
        heap = {}
        for a, r in self.heap.items():
            heap[fa(a) if fa and not isinstance(a, Sy) else a] = map_rec(r, fv)
        self.heap = heap
        self.chars = {(s, fl(p)): c for (s, p), c in self.chars.items()}
        self.ranges = {(s, fl(a), fl(b)): c for (s, a, b), c in self.ranges.items()}
        self.ghost = {k: map_ghost(g, fl, fa) for k, g in self.ghost.items()}

    def rename_addr(self, old, new):
        f = lambda a: new if a == old else a  # noqa: E731
        fv = lambda v: map_v(v, lambda e: e, f)  # noqa: E731
        for d in self.frames.values():
            for n, v in d.items():
                if type(v) in (Obj, Tup, Bm, BM, Sup, Part, St):
                    d[n] = fv(v)
        for a in list(self.heap):
            r = self.heap[a]
            s = set()
            for v in rec_values(r):
                addrs_of(v, s)
            if old in s:
                self.heap[a] = map_rec(r, fv)
        if old in self.heap:
            self.heap[new] = self.heap.pop(old)
        self.ghost = {k: map_ghost(g, lambda e: e, f) for k, g in self.ghost.items()}

    def subst_sy(self, old, new):
        """Rename a symbolic term everywhere (in place)."""
        f = lambda v: map_sy(v, old, new)  # noqa: E731
        for d in self.frames.values():
            for n, v in d.items():
                d[n] = f(v)
        heap = {}
        for a, r in self.heap.items():
            r2 = map_rec(r, f)
            if hasattr(r2, "org") and r2.org is not None:
                o = subst_term(r2.org, old, new)
                if o != r2.org:
                    r2 = LRec(r2.pre, r2.tail, r2.pairs, r2.plast, o, r2.pmin) if isinstance(r2, LRec) else r2
            heap[f(a) if isinstance(a, Sy) else a] = r2
        self.heap = heap
        facts = {}
        for t, x in self.facts.items():
            facts[subst_term(t, old, new)] = x
        self.facts = facts
        self.ghost = {k: subst_term(g, old, new) for k, g in self.ghost.items()}

    def drop_facts(self, pred):
        for t in [t for t in self.facts if pred(t)]:
            del self.facts[t]

    def flatten(self, keep=()):
        """Change of basis: sums of symbols that always occur together
        become one symbol (exact: n = e replaces one symbol of e)."""
        for _ in range(12):
            lins = {Lin(e.t, 0) for e in self.all_lins() if e.t}
            pick = None
            for e in sorted(lins, key=lambda x: (len(x.t), repr(x))):
                if sum(1 for s in e.syms() if s not in keep) < 2 and not (len(e.t) > 1 and keep and any(
                        s not in keep and not s.startswith("len:") for s in e.syms())):
                    continue
                if any(s.startswith("len:") for s in e.syms()) or any(k < 0 for _, k in e.t):
                    continue
                de = dict(e.t)
                for s, k in e.t:
                    if k != 1 or s in keep:
                        continue
                    ok = True
                    for x in lins:
                        dx = dict(x.t)
                        if s in dx and x != e:
                            r = x - e
                            if len(r.t) >= len(x.t) or s in dict(r.t):
                                ok = False
                                break
                    if ok:
                        pick = (e, s)
                        break
                if pick:
                    break
            if pick is None:
                return
            e, s = pick
            n = fresh("f")
            m = {s: symlin(n) - (e - symlin(s))}
            fl = lambda x: x.subst(m)  # noqa: E731
            self.map_all(fl)
            c = self.cons.subst(m)
            if c is not None:
                self.cons = c

    def project_syms(self, extra=()):
        """Eliminate constraint symbols not referenced any more."""
        live = set()
        for e in self.all_lins(extra):
            live.update(e.syms())
        chars = {}
        for (s, p), c in self.chars.items():
            if all(x in live or x.startswith("len:") for x in p.syms()):
                chars[(s, p)] = c
            elif EOF not in c:
                cc = self.cons.add(len_sym(s) - p - (2 if c == CRXSET else 1))
                if cc is not None:
                    self.cons = cc
        self.chars = chars
        self.ranges = {k: c for k, c in self.ranges.items()
                       if all(x in live or x.startswith("len:") for x in k[1].syms() + k[2].syms())}
        dead = set()
        for f in self.cons.fs:
            for s in f.syms():
                if s not in live and not s.startswith("len:"):
                    dead.add(s)
        if dead:
            self.cons = self.cons.eliminate(sorted(dead))


def map_ghost(g, fl, fa):
    if isinstance(g, V):
        return map_v(g, fl, fa)
    if isinstance(g, Lin):
        return fl(g)
    if isinstance(g, tuple):
        return tuple(map_ghost(x, fl, fa) for x in g)
    if isinstance(g, frozenset):
        return frozenset(map_ghost(x, fl, fa) for x in g)
    return g


def ghost_addrs(g, out):
    if isinstance(g, V):
        addrs_of(g, out)
    elif isinstance(g, (tuple, frozenset)):
        for x in g:
            ghost_addrs(x, out)


def ghost_lins(g, out):
    if isinstance(g, V):
        lins_of(g, out)
    elif isinstance(g, Lin):
        out.append(g)
    elif isinstance(g, (tuple, frozenset)):
        for x in g:
            ghost_lins(x, out)
