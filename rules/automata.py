"""Inclusion of abstract strings in regular languages."""
import re._parser as sp
import re._constants as sc

from sa.charset import CS, ANYCH

NEWLINE = CS.of("\n")


def _cls(items):
    cs = None
    neg = False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
            continue
        if op is sc.LITERAL:
            c = CS(((av, av),))
        elif op is sc.RANGE:
            c = CS((av,))
        else:
            raise ValueError(op)
        cs = c if cs is None else cs | c
    return ANYCH - cs if neg else cs


class NFA:
    def __init__(self):
        self.eps = {}
        self.tr = {}
        self.n = 0

    def new(self):
        self.n += 1
        self.eps[self.n] = []
        self.tr[self.n] = []
        return self.n

    def closure(self, ss):
        out = set(ss)
        todo = list(ss)
        while todo:
            for t in self.eps[todo.pop()]:
                if t not in out:
                    out.add(t)
                    todo.append(t)
        return frozenset(out)


def regex(pat):
    n = NFA()

    def seq(items, s):
        for it in items:
            s = one(it, s)
        return s

    def one(it, s):
        op, av = it
        if op is sc.LITERAL:
            e = n.new()
            n.tr[s].append((CS(((av, av),)), e))
            return e
        if op is sc.NOT_LITERAL:
            e = n.new()
            n.tr[s].append((ANYCH - CS(((av, av),)), e))
            return e
        if op is sc.IN:
            e = n.new()
            n.tr[s].append((_cls(av), e))
            return e
        if op is sc.ANY:
            e = n.new()
            n.tr[s].append((ANYCH, e))
            return e
        if op is sc.SUBPATTERN:
            return seq(av[3], s)
        if op is sc.BRANCH:
            e = n.new()
            for alt in av[1]:
                b = n.new()
                n.eps[s].append(b)
                n.eps[seq(alt, b)].append(e)
            return e
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, body = av
            return rep(lambda x: seq(body, x), s, lo, None if hi is sc.MAXREPEAT else hi)
        raise ValueError(op)

    def rep(f, s, lo, hi):
        for _ in range(lo):
            s = f(s)
        if hi is None:
            a = n.new()
            n.eps[s].append(a)
            b = f(a)
            n.eps[b].append(a)
            e = n.new()
            n.eps[a].append(e)
            return e
        e = n.new()
        n.eps[s].append(e)
        for _ in range(hi - lo):
            s = f(s)
            n.eps[s].append(e)
        return e
    n.rep = rep
    s = n.new()
    n.start = s
    n.end = seq(list(sp.parse(pat)), s)
    return n


def atoms_nfa(atoms, st):
    """NFA of an abstract string (None when it holds an opaque value)."""
    n = NFA()

    def rep(f, s, lo, hi):
        for _ in range(lo):
            s = f(s)
        if hi is None:
            a = n.new()
            n.eps[s].append(a)
            n.eps[f(a)].append(a)
            e = n.new()
            n.eps[a].append(e)
            return e
        e = n.new()
        n.eps[s].append(e)
        for _ in range(hi - lo):
            s = f(s)
            n.eps[s].append(e)
        return e

    def step(cs):
        def f(s):
            e = n.new()
            n.tr[s].append((cs, e))
            return e
        return f

    def seq(items, s):
        for a in items:
            t = a[0]
            if t == "l":
                for c in a[1]:
                    s = step(CS.of(c))(s)
            elif t == "b":
                hi = a[3]
                lo = a[2]
                if lo > 40 or (hi is not None and hi > 40):
                    lo, hi = min(lo, 40), None
                s = rep(step(a[1]), s, lo, hi)
            elif t == "sl":
                cs = st.range_cs(a[1], a[2], a[3])
                ln = a[3] - a[2]
                lo = st.lower_len(ln) if hasattr(st, "lower_len") else (ln.c if not ln.t else (1 if st.entails(ln - 1) else 0))
                hi = ln.c if not ln.t else None
                s = rep(step(cs), s, max(lo, 0), hi)
            elif t == "*":
                def alts(x, _a=a):
                    e = n.new()
                    for alt in _a[1]:
                        b = n.new()
                        n.eps[x].append(b)
                        n.eps[seq(alt, b)].append(e)
                    return e
                s = rep(alts, s, a[2], None)
            else:
                raise KeyError(t)
        return s
    s = n.new()
    n.start = s
    try:
        n.end = seq(atoms, s)
    except KeyError:
        return None
    return n


def included(atoms, st, pat):
    """True / (False, witness) / None (opaque)."""
    A = atoms_nfa(atoms, st)
    if A is None:
        return None
    return nfa_included(A, pat if isinstance(pat, NFA) else regex(pat))


def nfa_included(A, B):
    start = (A.start, B.closure([B.start]))
    seen = {start: ""}
    todo = [start]
    while todo:
        a, bs = todo.pop()
        w = seen[(a, bs)]
        if a == A.end and B.end not in bs:
            return (False, w)
        for t in A.eps[a]:
            k = (t, bs)
            if k not in seen:
                seen[k] = w
                todo.append(k)
        for cs, t in A.tr[a]:
            # split by what the specification distinguishes
            parts = [cs]
            lab = [c for b in bs for c, _ in B.tr[b]]
            for c in lab:
                nx = []
                for p in parts:
                    x, y = p & c, p - c
                    if x:
                        nx.append(x)
                    if y:
                        nx.append(y)
                parts = nx
            for p in parts:
                nb = B.closure([u for b in bs for c, u in B.tr[b] if p.issubset(c)])
                k = (t, nb)
                if k not in seen:
                    lo = p.iv[0][0]
                    seen[k] = (w + (chr(lo) if lo >= 0 else "\\r\\n"))[:60]
                    todo.append(k)
    return True
