"""Sets of code points as sorted disjoint intervals.

Besides real code points (0..0x10FFFF) two pseudo elements are used:
  EOF (-1): "there is no character at this position"
  CRX (-2): a CR that is immediately followed by LF; code point 13 is every other CR
"""
EOF = -1
CRX = -2
MAXCP = 0x10FFFF


class CS:
    __slots__ = ("iv", "_h")

    def __init__(self, iv=()):
        self.iv = tuple(iv)
        self._h = hash(self.iv)

    @staticmethod
    def norm(ivs):
        out = []
        for lo, hi in sorted(ivs):
            if lo > hi:
                continue
            if out and lo <= out[-1][1] + 1:
                if hi > out[-1][1]:
                    out[-1] = (out[-1][0], hi)
            else:
                out.append((lo, hi))
        return CS(out)

    @staticmethod
    def of(*chars):
        return CS.norm([(ord(c), ord(c)) for s in chars for c in s]
                       + ([(CRX, CRX)] if any("\r" in s for s in chars) else []))

    @staticmethod
    def plain(chars):
        """Characters of a literal (a CR in it is no CR of the source)."""
        return CS.norm([(ord(c), ord(c)) for c in chars])

    @staticmethod
    def rng(a, b):
        if isinstance(a, str):
            a, b = ord(a), ord(b)
        return CS.norm([(a, b)] + ([(CRX, CRX)] if a <= 13 <= b else []))

    def __or__(self, o):
        if self.iv == o.iv or not o.iv:
            return self
        if not self.iv:
            return o
        return CS.norm(self.iv + o.iv)

    def __and__(self, o):
        out = []
        i = j = 0
        a, b = self.iv, o.iv
        while i < len(a) and j < len(b):
            lo = max(a[i][0], b[j][0])
            hi = min(a[i][1], b[j][1])
            if lo <= hi:
                out.append((lo, hi))
            if a[i][1] < b[j][1]:
                i += 1
            else:
                j += 1
        return CS(out)

    def comp(self):
        """Complement, pseudo elements included."""
        out = []
        cur = CRX
        for lo, hi in self.iv:
            if lo > cur:
                out.append((cur, lo - 1))
            cur = max(cur, hi + 1)
        if cur <= MAXCP:
            out.append((cur, MAXCP))
        return CS(out)

    def __sub__(self, o):
        return self & o.comp()

    def __bool__(self):
        return bool(self.iv)

    def __eq__(self, o):
        return isinstance(o, CS) and self.iv == o.iv

    def __hash__(self):
        return self._h

    def __contains__(self, c):
        if isinstance(c, str):
            c = ord(c)
        return any(lo <= c <= hi or (c == 13 and lo <= CRX <= hi) for lo, hi in self.iv)

    def issubset(self, o):
        return not (self - o)

    def issubset_full(self, o):
        """Subset, pseudo elements included."""
        return (self & o).iv == self.iv

    def size(self):
        return sum(hi - lo + 1 for lo, hi in self.iv)

    def single(self):
        """The only code point of the set, or None."""
        if len(self.iv) == 1 and self.iv[0][0] == self.iv[0][1]:
            return self.iv[0][0]
        return None

    def sample(self):
        """Some readable member."""
        for lo, hi in self.iv:
            for c in range(max(lo, 33), hi + 1):
                return c
        return self.iv[0][0] if self.iv else None

    def __repr__(self):
        def s(c):
            if c == EOF:
                return "EOF"
            if c == CRX:
                return "CR(LF)"
            return repr(chr(c))[1:-1] if c < 0x10000 else "U+%X" % c
        if not self.iv:
            return "{}"
        return "{" + ",".join(s(a) if a == b else s(a) + "-" + s(b) for a, b in self.iv[:12]) + (
            ",..." if len(self.iv) > 12 else "") + "}"


NONE = CS()
EOFSET = CS(((EOF, EOF),))
ANYCH = CS(((CRX, CRX), (0, MAXCP)))
ANY = CS(((CRX, MAXCP),))
LF = CS(((10, 10),))
CRS = CS(((CRX, CRX), (13, 13)))
CRXSET = CS(((CRX, CRX),))

_pred_cache = {}


def by_predicate(name):
    """Set of code points whose one-character string satisfies str.<name>()."""
    if name not in _pred_cache:
        f = getattr(str, name)
        ivs = []
        start = None
        for c in range(MAXCP + 1):
            if f(chr(c)):
                if start is None:
                    start = c
            elif start is not None:
                ivs.append((start, c - 1))
                start = None
        if start is not None:
            ivs.append((start, MAXCP))
        if f("\r"):
            ivs.append((CRX, CRX))
        _pred_cache[name] = CS.norm(ivs)
    return _pred_cache[name]


def fold_ascii_case(cs):
    """cs extended by simple ASCII case variants (used for case-insensitive regexes)."""
    out = cs
    for lo, hi in (cs & CS(((0, 127),))).iv:
        for c in range(lo, hi + 1):
            out = out | CS.of(chr(c).lower(), chr(c).upper())
    return out
