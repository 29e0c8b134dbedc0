"""Abstract strings: sequences of atoms.

('l', text)           literal
('b', CS, lo, hi)     lo..hi characters of CS (hi None: unbounded)
('sl', src, a, b)     slice of the source text
('v', V)              an opaque string value
('*', alts, min)      min or more repetitions of one of the alternatives
                      (each a tuple of atoms); optional 4th element: label
"""
from .charset import CS, ANYCH, EOFSET, CRX, NONE as CS_NONE
from .linear import lin
from .values import *  # noqa

CRXS = CS(((CRX, CRX),))
ANYSTR_CS = ANYCH


def lit_atoms(s):
    return (("l", s),) if s else ()


def atoms_of(v, st):
    """Atoms of a string value, or None."""
    if isinstance(v, K) and isinstance(v.v, str):
        return lit_atoms(v.v)
    if isinstance(v, St):
        return v.items
    if isinstance(v, Ch):
        return (("b", st.ch_brick(v.src, v.p), 1, 1),)
    if isinstance(v, Src):
        return (("sl", v.name, lin(0), lin(0) + _len(v.name)),)
    if isinstance(v, (Sy, Top)):
        return (("v", v),)
    return None


def _len(src):
    from .state import len_sym
    return len_sym(src)


def unary(alts):
    """The charset when all alternatives are built of one and the same character and one of them
    is a single one."""
    cs = CS_NONE
    single = False
    for x in alts:
        c = all_cs(x)
        if c is None:
            return None
        cs = cs | c
        if cs.size() != 1:
            return None
        single = single or (minlen_items(x) <= 1)
    return cs if single else None


def mk(items):
    """Normalised string value."""
    out = []
    for a in items:
        if a[0] == "l" and not a[1]:
            continue
        if a[0] == "b" and a[3] == 0:
            continue
        if a[0] == "sl" and a[2] == a[3]:
            continue
        if a[0] == "*":
            alts = frozenset(x for x in a[1] if x)
            if not alts:
                continue
            one = unary(alts)
            if one is not None:
                lo = min(minlen_items(x) for x in alts) if a[2] and len(alts) == len(a[1]) else 0
                out.append(("b", one, lo, None))
                if len(out) > 1 and out[-2][0] == "b" and out[-2][1] == one:
                    q = out.pop()
                    p = out.pop()
                    out.append(("b", one, p[2] + q[2], None))
                continue
            if len(alts) == 1 and len(a) == 3:
                (x,) = alts
                if len(x) == 1 and x[0][0] == "b" and x[0][2] == 1 and (x[0][3] == 1 or x[0][3] is None):
                    a = ("b", x[0][1], a[2], None)
                elif len(x) == 1 and x[0][0] == "b" and x[0][2] == 0:
                    a = ("b", x[0][1], 0, None)
                else:
                    a = ("*", alts, a[2] if len(alts) == len(a[1]) else 0)
            else:
                a = ("*", alts, a[2] if len(alts) == len(a[1]) else 0) + a[3:]
        if out:
            p = out[-1]
            if p[0] == "l" and a[0] == "l":
                out[-1] = ("l", p[1] + a[1])
                continue
            if p[0] == "b" and a[0] == "b" and p[1] == a[1]:
                out[-1] = ("b", p[1], p[2] + a[2], None if p[3] is None or a[3] is None else p[3] + a[3])
                continue
            if p[0] == "sl" and a[0] == "sl" and p[1] == a[1] and p[3] == a[2]:
                out[-1] = ("sl", p[1], p[2], a[3])
                continue
            if p[0] == "*" and a == p:
                out[-1] = ("*", p[1], min(p[2] + a[2], 1)) + p[3:]
                continue
        out.append(a)
    if not out:
        return K("")
    if len(out) == 1 and out[0][0] == "l":
        return K(out[0][1])
    if len(out) == 1 and out[0][0] == "v":
        return out[0][1]
    return St(tuple(out))


def concat(a, b, st):
    x, y = atoms_of(a, st), atoms_of(b, st)
    if x is None or y is None:
        return None
    return mk(x + y)


def minlen_items(items, st=None):
    n = 0
    for a in items:
        if a[0] == "l":
            n += len(a[1])
        elif a[0] == "b":
            n += a[2]
        elif a[0] == "sl":
            d = a[3] - a[2]
            if not d.t:
                n += max(d.c, 0)
            elif st is not None:
                n += max(st.lower(d, 0, 1) or 0, 0)
        elif a[0] == "*":
            if a[2]:
                n += min((minlen_items(x, st) for x in a[1]), default=0)
    return n


def nonempty(v, st=None):
    """True / False / None."""
    if isinstance(v, K):
        return bool(v.v)
    if isinstance(v, Ch):
        return True
    if isinstance(v, St):
        if minlen_items(v.items, st) > 0:
            return True
        if st is not None and maxlen_items(v.items, st) == 0:
            return False
        return None
    return None


def maxlen_items(items, st=None):
    n = 0
    for a in items:
        if a[0] == "l":
            n += len(a[1])
        elif a[0] == "b":
            if a[3] is None:
                return None
            n += a[3]
        elif a[0] == "sl":
            d = a[3] - a[2]
            if not d.t:
                n += max(d.c, 0)
            elif st is not None and st.entails(a[2] - a[3]):
                pass
            else:
                return None
        else:
            return None
    return n


def debrick(items, st):
    """Replace source slices by character bricks valid in st."""
    out = []
    for a in items:
        if a[0] == "sl":
            d = a[3] - a[2]
            cs = st.range_cs(a[1], a[2], a[3])
            if not d.t:
                out.append(("b", cs, max(d.c, 0), max(d.c, 0)))
            else:
                lo = 1 if st.entails(d - 1) else 0
                if st.entails(a[2] - a[3]):
                    continue
                out.append(("b", cs, lo, None))
        elif a[0] == "*":
            out.append(("*", frozenset(tuple(debrick(x, st)) for x in a[1]), a[2]) + a[3:])
        else:
            out.append(a)
    return tuple(out)


def lit_to_bricks(items):
    out = []
    for a in items:
        if a[0] == "l":
            out.extend(("b", CS.plain(c), 1, 1) for c in a[1])
        else:
            out.append(a)
    return tuple(out)


def all_cs(items):
    """Charset of all characters (None when opaque parts occur)."""
    cs = CS_NONE
    for a in items:
        if a[0] == "l":
            cs = cs | CS.plain(a[1])
        elif a[0] == "b":
            cs = cs | a[1]
        elif a[0] == "*":
            for x in a[1]:
                c = all_cs(x)
                if c is None:
                    return None
                cs = cs | c
        else:
            return None
    return cs


def has_opaque(items):
    for a in items:
        if a[0] == "v":
            return True
        if a[0] == "*" and any(has_opaque(x) for x in a[1]):
            return True
    return False


def absorbed(delta, star):
    """Is the atom sequence one repetition of the star?"""
    if delta in star[1]:
        return True
    for alt in star[1]:
        if len(alt) == len(delta) and all(atom_leq(x, y) for x, y in zip(delta, alt)):
            return True
    return False


def atom_leq(x, y):
    if x == y:
        return True
    if x[0] == "b" and y[0] == "b":
        return x[1].issubset_full(y[1]) and x[2] >= y[2] and (
            y[3] is None or (x[3] is not None and x[3] <= y[3]))
    if x[0] == "l" and y[0] == "b":
        return all(c in y[1] for c in x[1]) and len(x[1]) >= y[2] and (y[3] is None or len(x[1]) <= y[3])
    if x[0] == "*" and y[0] == "*":
        return x[2] >= y[2] and all(absorbed(a, y) for a in x[1])
    return False


def seq_leq(a, b):
    """Sufficient test for inclusion of atom sequences."""
    if a == b:
        return True
    if not b:
        return all(x[0] == "b" and x[3] == 0 for x in a)
    if not a:
        return all((y[0] in "b*" and y[2] == 0) for y in b)
    if atom_leq(a[0], b[0]) and seq_leq(a[1:], b[1:]):
        return True
    y = b[0]
    if y[0] == "b" and y[3] is None:
        # a[0] consumed by unbounded brick
        x = a[0]
        if x[0] == "b" and x[1].issubset_full(y[1]) or x[0] == "l" and all(c in y[1] for c in x[1]):
            n = x[2] if x[0] == "b" else len(x[1])
            if seq_leq(a[1:], (("b", y[1], max(0, y[2] - n), None),) + b[1:]):
                return True
        if y[2] == 0 and seq_leq(a, b[1:]):
            return True
    if y[0] == "*":
        for n in range(1, len(a) + 1):
            if absorbed(a[:n], y) and seq_leq(a[n:], (("*", y[1], 0) + y[3:],) + b[1:]):
                return True
        if a[0][0] == "*" and all(absorbed(x, y) for x in a[0][1]) and a[0][2] >= y[2] and \
                seq_leq(a[1:], (("*", y[1], 0) + y[3:],) + b[1:]):
            return True
        if y[2] == 0 and seq_leq(a, b[1:]):
            return True
    return False


MAXALT = 14


def collapse(items):
    cs = all_cs(items)
    if cs is None:
        return None
    return ("b", cs, min(1, minlen_items(items)), None)


def widen(h, s, tag=None):
    """Upper bound of two atom sequences (h: previous, s: new)."""
    if seq_leq(s, h):
        return h
    if seq_leq(h, s) and not any(a[0] == "*" for a in s):
        pass
    lab = (tag,) if tag else ()
    # s = h + delta
    if len(s) >= len(h) and s[:len(h)] == h:
        delta = s[len(h):]
        if h and h[-1][0] == "*":
            return h[:-1] + (("*", h[-1][1] | {delta}, h[-1][2]) + h[-1][3:],)
        return h + (("*", frozenset([delta]), 0) + lab,)
    # last brick of h extended
    if h and s and len(s) >= len(h) and s[:len(h) - 1] == h[:-1]:
        a, b = h[-1], s[len(h) - 1]
        if a[0] == "b" and b[0] == "b" and a[1] == b[1]:
            hi = None if (b[3] is None or a[3] is None or b[3] > a[3]) else a[3]
            na = ("b", a[1], min(a[2], b[2]), hi)
            rest = s[len(h):]
            if not rest:
                return h[:-1] + (na,)
            return h[:-1] + (na, ("*", frozenset([rest]), 0) + lab)
        if a[0] == "*" and b[0] == "*":
            rest = s[len(h):]
            alts = a[1] | b[1]
            if rest:
                alts = alts | {rest}
            if len(alts) <= MAXALT:
                return h[:-1] + (("*", alts, min(a[2], b[2])) + a[3:],)
        if a[0] == "l" and b[0] == "l" and b[1].startswith(a[1]):
            delta = lit_atoms(b[1][len(a[1]):]) + s[len(h):]
            return h + (("*", frozenset([delta]), 0) + lab,)
    # pointwise
    if len(h) == len(s) and all(x[0] == y[0] == "b" or x == y for x, y in zip(h, s)):
        out = []
        for x, y in zip(h, s):
            if x == y:
                out.append(x)
            else:
                hi = None if x[3] is None or y[3] is None or y[3] > x[3] else x[3]
                out.append(("b", x[1] | y[1], min(x[2], y[2]), hi))
        return tuple(out)
    # general: repetition of alternatives, labels and opaque values kept
    def alts_of(seq):
        r = set()
        for a in seq:
            if a[0] == "*":
                r |= set(a[1])
            elif a[0] == "b":
                r.add((("b", a[1], 1, 1),))
            else:
                r.add((a,))
        return r
    m = 1 if h and s and minlen_items(h) and minlen_items(s) else 0
    alts = frozenset(alts_of(h) | alts_of(s))
    if len(alts) > MAXALT:
        c = collapse((("*", alts, m),))
        if c is not None:
            return (("b", c[1], m, None),)
    return (("*", alts, m) + lab,)
