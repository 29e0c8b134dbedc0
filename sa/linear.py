"""Linear integer expressions over symbols and a small constraint store."""


class Lin:
    __slots__ = ("t", "c", "_h")

    def __init__(self, t=(), c=0):
        self.t = t          # sorted tuple of (symbol, coefficient), coefficient != 0
        self.c = c
        self._h = hash((t, c))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return self._h

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o) if o else self
        if not o.t:
            return Lin(self.t, self.c + o.c)
        d = dict(self.t)
        for s, k in o.t:
            n = d.get(s, 0) + k
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return Lin(tuple(sorted(d.items())), self.c + o.c)

    def neg(self):
        return Lin(tuple((s, -k) for s, k in self.t), -self.c)

    def __sub__(self, o):
        if isinstance(o, int):
            return self + (-o)
        return self + o.neg()

    def scale(self, k):
        if k == 0:
            return Lin((), 0)
        return Lin(tuple((s, c * k) for s, c in self.t), self.c * k)

    def const(self):
        return self.c if not self.t else None

    def syms(self):
        return [s for s, _ in self.t]

    def subst(self, m):
        r = Lin((), self.c)
        hit = False
        for s, k in self.t:
            if s in m:
                r = r + m[s].scale(k)
                hit = True
            else:
                r = r + Lin(((s, k),), 0)
        return r if hit else self

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = "+".join((s if k == 1 else "-" + s if k == -1 else "%d*%s" % (k, s)) for s, k in self.t)
        return out + ("%+d" % self.c if self.c else "")


def lin(x):
    return x if isinstance(x, Lin) else Lin((), x)


def symlin(s):
    return Lin(((s, 1),), 0)


class Cons:
    """Immutable set of facts `e >= 0`."""
    __slots__ = ("fs", "_cache")

    def __init__(self, fs=frozenset()):
        self.fs = fs
        self._cache = {}

    def add(self, e):
        """Add e >= 0. Returns None when contradictory."""
        if not e.t:
            return self if e.c >= 0 else None
        if e in self.fs or self.entails(e):
            return self
        if self.entails(Lin(e.neg().t, e.neg().c - 1)):
            return None
        # drop facts subsumed by the new one (same terms, weaker constant)
        fs = frozenset(f for f in self.fs if not (f.t == e.t and f.c >= e.c)) | {e}
        return Cons(fs)

    def entails(self, e, depth=4):
        """Is e >= 0 implied (by nonnegative integer combination of few facts)?"""
        if not e.t:
            return e.c >= 0
        r = self._cache.get(e)
        if r is None:
            # drop terms known to be non-negative
            nn = self._nn()
            x = Lin(tuple((s, k) for s, k in e.t if not (k > 0 and s in nn)), e.c + sum(
                nn[s] * k for s, k in e.t if k > 0 and s in nn))
            r = not x.t and x.c >= 0 or self._search(e, 2, {}) or self._lp(e)
            self._cache[e] = r
        return r

    def _nn(self):
        nn = self._cache.get("nn")
        if nn is None:
            nn = self._cache["nn"] = {f.t[0][0]: -f.c for f in self.fs
                                      if len(f.t) == 1 and f.t[0][1] == 1 and f.c <= 0}
        return nn

    def _lp(self, e):
        """Farkas: is e a non-negative combination of the facts plus a constant >= 0?"""
        # facts connected with e
        syms = {}
        for s, _ in e.t:
            syms.setdefault(s, len(syms))
        left = [f for f in self.fs]
        cols = []
        grew = True
        while grew:
            grew = False
            rest = []
            for f in left:
                if any(s in syms for s, _ in f.t):
                    cols.append(f)
                    for s, _ in f.t:
                        if s not in syms:
                            syms[s] = len(syms)
                    grew = True
                else:
                    rest.append(f)
            left = rest
        if not cols:
            return False
        if len(cols) > 60:
            cols = sorted(cols, key=lambda f: (len(f.t), f.c))[:60]
        m, n = len(syms), len(cols)
        # each symbol of e needs a fact of the same sign
        for s, k in e.t:
            if not any(s == s2 and (k > 0) == (k2 > 0) for f in cols for s2, k2 in f.t):
                return False
        # rows: sum lambda_i f_i[s] = e[s] ; sum lambda_i f_i.c + slack = e.c
        rows = [[0.0] * (n + 2) for _ in range(m + 1)]
        for j, f in enumerate(cols):
            for s, k in f.t:
                rows[syms[s]][j] = float(k)
            rows[m][j] = float(f.c)
        rows[m][n] = 1.0
        for s, k in e.t:
            rows[syms[s]][n + 1] = float(k)
        rows[m][n + 1] = float(e.c)
        w = n + 2
        for r in rows:
            if r[n + 1] < 0:
                for j in range(w):
                    r[j] = -r[j]
        basis = [-1] * (m + 1)          # artificial variables
        for _ in range(80):
            # phase-1 objective: sum of the rows whose basis is artificial
            obj = [0.0] * w
            for i, bi in enumerate(basis):
                if bi < 0:
                    r = rows[i]
                    for j in range(w):
                        obj[j] += r[j]
            if obj[n + 1] < 1e-7:
                return True
            # entering: Bland
            ent = -1
            for j in range(n + 1):
                if obj[j] > 1e-9:
                    ent = j
                    break
            if ent < 0:
                return False
            lv, best = -1, None
            for i in range(m + 1):
                v = rows[i][ent]
                if v > 1e-9:
                    q = rows[i][n + 1] / v
                    if best is None or q < best - 1e-12 or (q < best + 1e-12 and basis[i] < basis[lv]):
                        lv, best = i, q
            if lv < 0:
                return False
            pr = rows[lv]
            pv = pr[ent]
            if pv != 1.0:
                pr = rows[lv] = [x / pv for x in pr]
            for i in range(m + 1):
                if i != lv:
                    k = rows[i][ent]
                    if k > 1e-12 or k < -1e-12:
                        r = rows[i]
                        rows[i] = [x - k * y for x, y in zip(r, pr)]
            basis[lv] = ent
        return False

    def _search(self, e, depth, seen):
        if not e.t:
            return e.c >= 0
        if depth == 0 or seen.get(e, 0) >= depth:
            return False
        seen[e] = depth
        # e = f + rest, rest >= 0 ; choose a fact sharing a term with same sign
        s0, k0 = e.t[0]
        for f in self.fs:
            for s, k in f.t:
                if s == s0 and (k > 0) == (k0 > 0):
                    if self._search(e - f, depth - 1, seen):
                        return True
                    break
        return False

    def eliminate(self, dead):
        """Project out the given symbols (Fourier-Motzkin)."""
        fs = set(self.fs)
        for m in dead:
            pos = [f for f in fs if dict(f.t).get(m, 0) > 0]
            negs = [f for f in fs if dict(f.t).get(m, 0) < 0]
            if not pos and not negs:
                continue
            fs -= set(pos) | set(negs)
            if len(pos) * len(negs) <= 40:
                for p in pos:
                    kp = dict(p.t)[m]
                    for n in negs:
                        kn = -dict(n.t)[m]
                        r = p.scale(kn) + n.scale(kp)
                        if r.t and len(r.t) <= 4 and all(-1 <= k <= 1 for _, k in r.t):
                            fs.add(r)
            # keep only strongest per term-vector
        best = {}
        for f in fs:
            if f.t not in best or f.c < best[f.t].c:
                best[f.t] = f
        fs = set(best.values())
        for f in sorted(fs, key=lambda f: (-len(f.t), repr(f))):
            if len(f.t) >= 3:
                rest = Cons(frozenset(fs - {f}))
                if rest.entails(f):
                    fs.discard(f)
        return Cons(frozenset(fs))

    def subst(self, m):
        out = Cons()
        for f in self.fs:
            g = f.subst(m)
            r = out.add(g)
            if r is None:
                return None
            out = r
        return out

    def lower(self, e, lo=-3, hi=3):
        """Largest c in [lo,hi] with e >= c entailed, or None."""
        if not self.entails(e - lo):
            return None
        r = lo
        while r < hi and self.entails(e - (r + 1)):
            r += 1
        return r

    def __repr__(self):
        return "{" + ", ".join(sorted("%r>=0" % f for f in self.fs)) + "}"
