"""Transfer functions of operators, comparisons and subscripts."""
import ast

from . import strs
from .charset import CS, ANYCH, EOFSET, CRX
from .linear import Lin, lin
from .state import *  # noqa
from .state import fresh
from .values import *  # noqa
from .values import V

PYOP = {
    "Add": lambda a, b: a + b, "Sub": lambda a, b: a - b, "Mult": lambda a, b: a * b,
    "Mod": lambda a, b: a % b, "BitOr": lambda a, b: a | b, "BitAnd": lambda a, b: a & b,
    "BitXor": lambda a, b: a ^ b, "FloorDiv": lambda a, b: a // b, "Div": lambda a, b: a / b,
    "LShift": lambda a, b: a << b if b < 64 else a, "RShift": lambda a, b: a >> b,
    "Pow": lambda a, b: a ** b if abs(b) < 64 else a,
}
CMP = {
    "Eq": lambda a, b: a == b, "NotEq": lambda a, b: a != b, "Lt": lambda a, b: a < b,
    "LtE": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "GtE": lambda a, b: a >= b,
    "In": lambda a, b: a in b, "NotIn": lambda a, b: a not in b,
    "Is": lambda a, b: a is b, "IsNot": lambda a, b: a is not b,
}
NEGOP = {"Eq": "NotEq", "NotEq": "Eq", "Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt",
         "In": "NotIn", "NotIn": "In", "Is": "IsNot", "IsNot": "Is"}
SWAP = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE", "Eq": "Eq", "NotEq": "NotEq"}
CSCMP = {
    "Eq": lambda c: CS.rng(c, c), "NotEq": lambda c: ANYCH - CS.rng(c, c),
    "Lt": lambda c: CS.rng(0, c - 1), "LtE": lambda c: CS.rng(0, c),
    "Gt": lambda c: CS.rng(c + 1, 0x10FFFF), "GtE": lambda c: CS.rng(c, 0x10FFFF),
}


def bool_(b):
    return TRUE if b else FALSE


def const_key(i, st):
    """A symbolic key known to be one constant is that constant."""
    if isinstance(i, Sy):
        c = st.fact(i.t).const
        if isinstance(c, K):
            return c
    return i


class Ops:
    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, st, node, fr, inplace=False):
        o = type(op).__name__
        if isinstance(a, K) and isinstance(b, K) and o in PYOP:
            if isinstance(a.v, (int, float, str, tuple, bytes)) and isinstance(b.v, (int, float, str, tuple, bytes)):
                try:
                    r = PYOP[o](a.v, b.v)
                    if not isinstance(r, (str, tuple)) or len(r) < 5000:
                        return [(st, K(r))]
                except Exception as e:
                    self.rx(st, type(e).__name__, node, fr, K(str(e)))
                    return []
        if is_int(a) and is_int(b):
            x, y = as_lin(a), as_lin(b)
            if o == "Add":
                return [(st, I_(x + y))]
            if o == "Sub":
                return [(st, I_(x - y))]
            if o == "Mult" and (not x.t or not y.t):
                return [(st, I_(x.scale(y.c) if not y.t else y.scale(x.c)))]
            s = symlin(fresh("i"))
            if o == "Mod" and not y.t and y.c > 0:
                st.assume(s)
                st.assume(lin(y.c - 1) - s)
            return [(st, I_(s))]
        if isinstance(a, Od) and (is_int(b) or isinstance(b, Od)):
            return [(st, I_(symlin(fresh("i"))))]
        if o == "Add":
            if is_str(a) and is_str(b):
                return [(st, strs.concat(a, b, st))]
            if is_str(a) or is_str(b):
                other, ostr = (b, a) if is_str(a) else (a, b)
                return self.str_concat_other(a, b, other, st, node, fr)
            if isinstance(a, Tup) and isinstance(b, Tup):
                return [(st, Tup(a.items + b.items))]
            if isinstance(a, Obj) and isinstance(self.rec(st, a.a), LRec):
                if inplace:
                    return [(x, a) for x in self.list_extend_states(a, b, st, node, fr)]
                r = self.alloc(st, fr, node, LRec())
                outs = []
                for x in self.list_extend_states(r, a, st, node, fr):
                    outs.extend((y, r) for y in self.list_extend_states(r, b, x, node, fr))
                return outs
            if isinstance(a, Sy) and isinstance(b, Sy):
                ta, tb = st.fact(a.t).types, st.fact(b.t).types
                if ta and tb and all(t[0] == "builtins.str" for t in ta | tb):
                    return [(st, strs.mk((("v", a), ("v", b))))]
        if o == "Mod" and is_str(a):
            return self.percent_format(a, b, st, node, fr)
        if o in ("BitOr", "BitAnd", "Sub") and isinstance(a, Obj):
            ra = self.rec(st, a.a)
            if isinstance(ra, SRec):
                rb = self.rec(st, b.a) if isinstance(b, Obj) else None
                items, rest = (ra.items | rb.items, None) if (o == "BitOr" and isinstance(rb, SRec)
                                                               and rb.rest is None and ra.rest is None) else (
                    frozenset(), frozenset(ra.items))
                if o == "Sub" and isinstance(rb, SRec) and rb.rest is None and all(
                        isinstance(x, K) for x in ra.items | rb.items) and ra.rest is None:
                    items, rest = ra.items - rb.items, None
                return [(st, self.alloc(st, fr, node, SRec(items, rest)))]
            if isinstance(ra, DRec) and o == "BitOr":
                return [(st, self.alloc(st, fr, node, self.dict_update(ra, b, st)))]
        for v in (a, b):
            if isinstance(v, K) and v.v is None:
                self.rx(st, "TypeError", node, fr, K("unsupported operand None"))
                return []
        # user classes
        if isinstance(a, Obj):
            r = self.rec(st, a.a)
            nm = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__truediv__", "Mod": "__mod__"}.get(o)
            if isinstance(r, Inst) and r.ci is not None and nm and r.ci.lookup(nm)[1] is not None:
                return self.callmethod(a, nm, [b], st, node, fr)
        for v in (a, b):
            if isinstance(v, Sy):
                ty = st.fact(v.t).types
                if ty is None or any(t[0] == "builtins.NoneType" for t in ty):
                    self.rx(st.fork(), "TypeError", node, fr, K("operand types"))
                    break
        t = ("b", o, a, b)
        ty = self.numeric_type(a, b, st)
        if ty is not None:
            st.facts.setdefault(t, Fact(ty))
        return [(st, Sy(t))]

    def numeric_type(self, a, b, st):
        def ty(v):
            if is_int(v) or isinstance(v, Od):
                return frozenset([("builtins.int", ())])
            if isinstance(v, Sy):
                f = st.fact(v.t).types
                if f and all(t[0] in ("builtins.int", "builtins.bool") for t in f):
                    return frozenset([("builtins.int", ())])
                if f and all(t[0] == "builtins.str" for t in f):
                    return f
            return None
        x, y = ty(a), ty(b)
        return x if x == y else None

    def str_concat_other(self, a, b, other, st, node, fr):
        if isinstance(other, Sy):
            f = st.fact(other.t)
            if f.types is not None and all(t[0] == "builtins.str" for t in f.types):
                return [(st, strs.concat(a, b, st))]
            y = st.fork()
            if f.types is None:
                y.facts[other.t] = f.with_(neg=f.neg | {"builtins.str"})
            else:
                bad = frozenset(t for t in f.types if t[0] != "builtins.str")
                y.facts[other.t] = f.with_(types=bad)
            self.rx(y, "TypeError", node, fr, K("can only concatenate str"))
            if f.types is not None and not any(t[0] == "builtins.str" for t in f.types):
                return []
            if "builtins.str" in f.neg:
                return []
            st.facts[other.t] = f.with_(types=frozenset([("builtins.str", ())]))
            return [(st, strs.concat(a, b, st))]
        if isinstance(other, Top):
            return [(st, strs.concat(a, b, st))]
        self.rx(st, "TypeError", node, fr, K("can only concatenate str"))
        return []

    def percent_format(self, a, b, st, node, fr):
        if isinstance(a, K):
            import re
            args = list(b.items) if isinstance(b, Tup) else [b]
            parts = re.split(r"(%[a-zA-Z%])", a.v)
            out = ()
            i = 0
            for p in parts:
                if p == "%%":
                    out += strs.lit_atoms("%")
                elif len(p) == 2 and p[0] == "%":
                    if i < len(args):
                        out += self.to_str_atoms(args[i], st, -1 if p[1] in "sd" else 114)
                    i += 1
                else:
                    out += strs.lit_atoms(p)
            return [(st, strs.mk(out))]
        return [(st, self.typed(st, ("pct", a, b), "builtins.str"))]

    def typed(self, st, t, *types):
        st.facts.setdefault(t, Fact(frozenset((x, ()) if isinstance(x, str) else x for x in types)))
        return Sy(t)

    # ------------------------------------------------------------ comparisons
    def compare(self, op, a, b, st, node, fr, ln=None, rn=None):
        o = type(op).__name__
        if o in ("Is", "IsNot"):
            return self.cmp_is(o == "Is", a, b, st, node, fr)
        if o in ("In", "NotIn"):
            return self.cmp_in(o == "In", a, b, st, node, fr, ln)
        return self.cmp_rel(o, a, b, st, node, fr, ln, rn)

    def cmp_is(self, pos, a, b, st, node, fr):
        if isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        if isinstance(b, K) and (b.v is None or isinstance(b.v, bool)):
            if isinstance(a, K):
                return [(st, bool_((a.v is b.v) == pos))]
            if isinstance(a, Sy):
                return self.split_const(a, b, pos, st)
            if isinstance(a, Top):
                return [(st.fork(), TRUE), (st, FALSE)]
            return [(st, bool_(not pos))]
        if isinstance(a, (Obj, Cl, Ext, Fn, Md)) and isinstance(b, (Obj, Cl, Ext, Fn, Md)):
            if a == b:
                r = st.heap.get(a.a) if isinstance(a, Obj) else None
                if not (isinstance(r, Inst) and r.many):
                    return [(st, bool_(pos))]
            elif not (isinstance(a, Obj) and isinstance(b, Obj) and (
                    self.is_many(st, a) or self.is_many(st, b))):
                return [(st, bool_(not pos))]
            return [(st.fork(), TRUE), (st, FALSE)]
        if a == b and isinstance(a, Sy):
            return [(st, bool_(pos))]
        ta, tb = self.type_of_typecall(a), self.type_of_typecall(b)
        if ta is not None or tb is not None:
            r = self.cmp_types(a, b, pos, st)
            if r is not None:
                return r
        return self.split_term(("is", a, b), pos, st)

    def is_many(self, st, o):
        r = st.heap.get(o.a)
        return isinstance(r, Inst) and r.many

    def type_of_typecall(self, v):
        if isinstance(v, Sy) and isinstance(v.t, tuple) and v.t[0] == "type":
            return v.t[1]
        return None

    def cmp_types(self, a, b, pos, st):
        """type(x) is C (C exact)."""
        if self.type_of_typecall(a) is None:
            a, b = b, a
        x = self.type_of_typecall(a)
        if isinstance(b, (Cl, Ext)) and isinstance(x, Sy):
            n = self.class_name(b)
            f = st.fact(x.t)
            out = []
            y = st.fork()
            if f.types is None or any(t[0] == n for t in f.types):
                if not any(self.tsub(n, g) for g in f.neg):
                    ty = frozenset(t for t in f.types if t[0] == n) if f.types is not None else frozenset([(n, ())])
                    y.facts[x.t] = f.with_(types=ty)
                    out.append((y, bool_(pos)))
            if f.types is None:
                out.append((st, bool_(not pos)))
            else:
                rest = frozenset(t for t in f.types if t[0] != n)
                if rest:
                    st.facts[x.t] = f.with_(types=rest)
                    out.append((st, bool_(not pos)))
            return out
        return None

    def split_term(self, t, pos, st):
        """Boolean atom with memory."""
        f = st.fact(t)
        if f.const is not None:
            return [(st, bool_(bool(f.const.v) == pos))]
        y = st.fork()
        y.facts[t] = Fact(const=TRUE)
        st.facts[t] = Fact(const=FALSE)
        return [(y, bool_(pos)), (st, bool_(not pos))]

    def split_const(self, a, b, pos, st):
        """a (symbolic) equal to the constant b?"""
        f = st.fact(a.t)
        tn = "builtins." + ("NoneType" if b.v is None else type(b.v).__name__)
        if f.const is not None:
            return [(st, bool_((f.const == b) == pos))]
        can = True
        if f.types is not None and not any(self.tsub(t[0], tn) for t in f.types):
            # numbers compare across types
            can = isinstance(b.v, (int, float)) and any(
                t[0] in ("builtins.int", "builtins.float", "builtins.bool") for t in f.types)
        if tn in f.neg or b in f.ne:
            can = False
        if f.truth is not None and f.truth != bool(b.v):
            can = False
        out = []
        if can:
            y = st.fork()
            y.facts[a.t] = f.with_(const=b, types=frozenset([(tn, ())]), truth=bool(b.v))
            out.append((y, bool_(pos)))
        if b.v is None:
            ty = None if f.types is None else frozenset(t for t in f.types if t[0] != tn)
            if ty is None or ty:
                st.facts[a.t] = f.with_(types=ty, neg=f.neg | {tn})
                out.append((st, bool_(not pos)))
        else:
            if not (f.types == frozenset([("builtins.bool", ())]) and isinstance(b.v, bool) and (not b.v) in [
                    x.v for x in f.ne if isinstance(x, K)]):
                if f.types == frozenset([("builtins.bool", ())]) and isinstance(b.v, bool):
                    st.facts[a.t] = f.with_(const=K(not b.v), truth=not b.v)
                else:
                    st.facts[a.t] = f.with_(ne=f.ne | {b})
                out.append((st, bool_(not pos)))
        return out

    def cmp_rel(self, o, a, b, st, node, fr, ln=None, rn=None):
        if isinstance(a, K) and isinstance(b, K):
            try:
                return [(st, bool_(CMP[o](a.v, b.v)))]
            except TypeError as e:
                self.rx(st, "TypeError", node, fr, K(str(e)))
                return []
        if o in ("Is", "IsNot"):
            return self.cmp_is(o == "Is", a, b, st, node, fr)
        # integers
        if is_int(a) and is_int(b):
            return self.cmp_int(o, as_lin(a), as_lin(b), st)
        if isinstance(a, K) or (isinstance(b, (Ch, Od)) and not isinstance(a, (Ch, Od))):
            if not isinstance(b, K):
                return self.cmp_rel(SWAP[o], b, a, st, node, fr, rn, ln)
        # characters
        if isinstance(a, Ch) and isinstance(b, K):
            if isinstance(b.v, str):
                return self.cmp_char(o, a, b.v, st)
            if o in ("Eq", "NotEq"):
                return [(st, bool_(o == "NotEq"))]
            self.rx(st, "TypeError", node, fr, K("comparison of str and %s" % type(b.v).__name__))
            return []
        if isinstance(a, Ch) and isinstance(b, Ch):
            if a == b:
                return [(st, bool_(o in ("Eq", "LtE", "GtE")))]
            return self.split_term(("cc", o, a, b), True, st) if False else [(st.fork(), TRUE), (st, FALSE)]
        if isinstance(a, Od) and isinstance(b, K) and isinstance(b.v, int):
            cs = CSCMP[o](b.v) if 0 <= b.v <= 0x10FFFF else None
            if cs is None:
                return [(st, bool_(CMP[o](0, b.v)))]
            return self.split_char(a.src, a.p, cs, st)
        if is_str(a) and isinstance(b, K):
            if not isinstance(b.v, str):
                if o in ("Eq", "NotEq"):
                    return [(st, bool_(o == "NotEq"))]
                self.rx(st, "TypeError", node, fr, K("comparison of str and %s" % type(b.v).__name__))
                return []
            return self.cmp_strk(o, a, b, st, ln, fr)
        if is_str(a) and is_str(b):
            if a == b:
                return [(st, bool_(o in ("Eq", "LtE", "GtE")))]
            return [(st.fork(), TRUE), (st, FALSE)]
        if isinstance(a, Sy) and isinstance(b, K):
            if o in ("Eq", "NotEq"):
                return self.split_const(a, b, o == "Eq", st)
            f = st.fact(a.t)
            if f.types is None or any(t[0] == "builtins.NoneType" for t in f.types):
                y = st.fork()
                self.rx(y, "TypeError", node, fr, K("ordering"))
            return self.split_term(("cmp", o, a, b), True, st)
        if o in ("Eq", "NotEq"):
            if self.type_of_typecall(a) is not None or self.type_of_typecall(b) is not None:
                r = self.cmp_types(a, b, o == "Eq", st)
                if r is not None:
                    return r
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    r = self.rec(st, x.a)
                    if isinstance(r, Inst) and r.ci is not None:
                        own, f = r.ci.lookup("__eq__")
                        if f is not None:
                            out = []
                            for z, v in self.callmethod(x, "__eq__", [y], st, node, fr):
                                for w, t in self.truth(v, z):
                                    out.append((w, bool_(t == (o == "Eq"))))
                            return out
            if isinstance(a, Obj) and isinstance(b, Obj):
                ra, rb = self.rec(st, a.a), self.rec(st, b.a)
                if a == b and not self.is_many(st, a):
                    return [(st, bool_(o == "Eq"))]
                if isinstance(ra, Inst) and isinstance(rb, Inst) and ra.nt is None and rb.nt is None:
                    if not self.is_many(st, a) and not self.is_many(st, b):
                        return [(st, bool_(o == "NotEq"))]
                if isinstance(ra, SRec) and isinstance(rb, SRec) and ra.rest is None and rb.rest is None and all(
                        isinstance(x, K) for x in ra.items | rb.items):
                    return [(st, bool_((ra.items == rb.items) == (o == "Eq")))]
                return [(st.fork(), TRUE), (st, FALSE)]
            if isinstance(a, (Cl, Ext, Fn, Md)) and isinstance(b, (Cl, Ext, Fn, Md)):
                return [(st, bool_((a == b) == (o == "Eq")))]
            if isinstance(a, Tup) and isinstance(b, Tup):
                if a == b and not any(isinstance(x, (Sy, Top)) for x in a.items):
                    return [(st, bool_(o == "Eq"))]
                return [(st.fork(), TRUE), (st, FALSE)]
            if isinstance(b, K) and isinstance(a, (Obj, Tup, Cl, Fn)) and b.v is None:
                return [(st, bool_(o == "NotEq"))]
            if a == b and isinstance(a, Sy):
                ty = st.fact(a.t).types
                if ty and all(t[0] in ("builtins.str", "builtins.int", "builtins.bool", "builtins.NoneType") for t in ty):
                    return [(st, bool_(o == "Eq"))]
                return self.split_term(("eq", a, b), o == "Eq", st)
            if repr(b) < repr(a):
                a, b = b, a
            return self.split_term(("eq", a, b), o == "Eq", st)
        return self.split_term(("cmp", o, a, b), True, st)

    def cmp_int(self, o, x, y, st):
        d = x - y
        if o in ("Eq", "NotEq"):
            if st.entails(d) and st.entails(d.neg()):
                return [(st, bool_(o == "Eq"))]
            if st.entails(d - 1) or st.entails(d.neg() - 1):
                return [(st, bool_(o == "NotEq"))]
            out = []
            e = st.fork()
            if e.assume(d) and e.assume(d.neg()):
                out.append((e, bool_(o == "Eq")))
            lt = st.fork()
            if lt.assume(d.neg() - 1):
                out.append((lt, bool_(o == "NotEq")))
            if st.assume(d - 1):
                out.append((st, bool_(o == "NotEq")))
            return out
        e = {"Lt": d.neg() - 1, "LtE": d.neg(), "Gt": d - 1, "GtE": d}[o]
        out = []
        y2 = st.fork()
        if y2.assume(e):
            out.append((y2, TRUE))
        if st.assume(e.neg() - 1):
            out.append((st, FALSE))
        return out

    def split_char(self, src, p, cs, st):
        out = []
        y = st.fork()
        if y.set_char(src, p, cs):
            out.append((y, TRUE))
        if st.set_char(src, p, cs.comp() - EOFSET):
            out.append((st, FALSE))
        return out

    def cmp_char(self, o, a, s, st):
        if len(s) == 1:
            return self.split_char(a.src, a.p, CSCMP[o](ord(s)), st)
        if o in ("Eq", "NotEq"):
            return [(st, bool_(o == "NotEq"))]
        if not s:
            return [(st, bool_(o in ("Gt", "GtE")))]
        c = ord(s[0])
        # 'x' < s  iff x <= s[0] for a longer s
        cs = {"Lt": CS.rng(0, c), "LtE": CS.rng(0, c),
              "Gt": CS.rng(c + 1, 0x10FFFF), "GtE": CS.rng(c + 1, 0x10FFFF)}[o]
        return self.split_char(a.src, a.p, cs, st)

    def cmp_strk(self, o, a, b, st, ln, fr):
        if o in ("Eq", "NotEq"):
            eq = o == "Eq"
            if b.v == "":
                out = []
                for y, t in self.truth(a, st, ln, fr):
                    out.append((y, bool_(t != eq)))
                return out
            items = strs.debrick(strs.atoms_of(a, st), st)
            if strs.minlen_items(items, st) > len(b.v):
                return [(st, bool_(not eq))]
            mx = strs.maxlen_items(items, st)
            if mx is not None and mx < len(b.v):
                return [(st, bool_(not eq))]
            cs = strs.all_cs(items)
            if cs is not None and any(c not in cs for c in b.v):
                return [(st, bool_(not eq))]
            y = st.fork()
            if ln is not None:
                self.refine(ln, b, y, fr)
            return [(y, bool_(eq)), (st, bool_(not eq))]
        return [(st.fork(), TRUE), (st, FALSE)]

    # membership
    def cmp_in(self, pos, a, b, st, node, fr, ln=None):
        if isinstance(b, K) and isinstance(b.v, str):
            if isinstance(a, K):
                if not isinstance(a.v, str):
                    self.rx(st, "TypeError", node, fr, K("'in <string>' requires string as left operand"))
                    return []
                return [(st, bool_((a.v in b.v) == pos))]
            if isinstance(a, Ch):
                return [(y, bool_(bool(t.v) == pos)) for y, t in self.split_char(a.src, a.p, CS.of(b.v), st)]
            if isinstance(a, Sy) and st.fact(a.t).types is None:
                self.rx(st.fork(), "TypeError", node, fr, K("in <string>"))
            return self.split_term(("in", a, b), pos, st)
        items = self.seq_items(b, st)
        if items is None and isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, SRec) and r.rest is None and r.org is None:
                items = sorted(r.items, key=repr)
            elif isinstance(r, DRec) and r.rest is None and r.org is None:
                items = [k for k, _ in r.items]
        if items is not None:
            if isinstance(a, K) and all(isinstance(x, K) for x in items):
                return [(st, bool_((any(a.v == x.v for x in items)) == pos))]
            if isinstance(a, Ch) and all(isinstance(x, K) for x in items):
                cs = CS.of(*[x.v for x in items if isinstance(x.v, str) and len(x.v) == 1])
                if not cs:
                    return [(st, bool_(not pos))]
                return [(y, bool_(bool(t.v) == pos)) for y, t in self.split_char(a.src, a.p, cs, st)]
            if len(items) <= 12:
                out = []
                cur = [st]
                for x in items:
                    nx = []
                    for y in cur:
                        for z, t in self.cmp_rel("Eq", a, x, y, node, fr, ln, None):
                            for w, tt in self.truth(t, z):
                                if tt:
                                    out.append((w, bool_(pos)))
                                else:
                                    nx.append(w)
                    cur = nx
                out.extend((y, bool_(not pos)) for y in cur)
                return out
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, SRec):
                if a in r.items:
                    return [(st, bool_(pos))]
                y = st.fork()
                y.heap[b.a] = SRec(r.items | {a}, r.rest, r.org, r.froz, True)
                self.ghost_notin(st, b, a)
                return [(y, bool_(pos)), (st, bool_(not pos))]
            if isinstance(r, DRec):
                if r.get(a) is not None:
                    return [(st, bool_(pos))]
                return self.split_term(("in", a, b), pos, st)
            if isinstance(r, Inst) and r.ci is not None and r.ci.lookup("__contains__")[1] is not None:
                out = []
                for y, v in self.callmethod(b, "__contains__", [a], st, node, fr):
                    for z, t in self.truth(v, y):
                        out.append((z, bool_(t == pos)))
                return out
            if isinstance(r, LRec):
                return [(st.fork(), TRUE), (st, FALSE)]
        if isinstance(b, Part) and isinstance(b.f, Ext) and b.f.q == "builtins.dict.keys":
            return self.cmp_in(pos, a, b.args[0], st, node, fr, ln)
        if isinstance(b, Sy):
            f = st.fact(b.t)
            if f.const is not None:
                return self.cmp_in(pos, a, f.const, st, node, fr, ln)
            if f.types is not None and any(t[0] == "builtins.NoneType" for t in f.types):
                y = st.fork()
                self.rx(y, "TypeError", node, fr, K("argument of type NoneType is not iterable"))
            ov = st.heap.get(b)
            if isinstance(ov, DRec) and ov.get(a) is not None:
                return [(st, bool_(pos))]
            return self.split_term(("in", a, b), pos, st)
        if isinstance(b, (St, Src, Ch)):
            if isinstance(a, K) and isinstance(a.v, str):
                items = strs.debrick(strs.atoms_of(b, st), st)
                cs = strs.all_cs(items)
                if cs is not None and any(c not in cs for c in a.v):
                    return [(st, bool_(not pos))]
                if all(x[0] in "lb" for x in items) and len(a.v) == 1 and any(x[0] == "l" and a.v in x[1] for x in items):
                    return [(st, bool_(pos))]
            return self.split_term(("in", a, b), pos, st)
        if isinstance(b, K):
            self.rx(st, "TypeError", node, fr, K("argument is not iterable"))
            return []
        return [(st.fork(), TRUE), (st, FALSE)]

    def ghost_notin(self, st, b, a):
        g = st.ghost.get(("notin", b.a), frozenset())
        if isinstance(g, frozenset):
            st.ghost[("notin", b.a)] = g | {a}

    # ------------------------------------------------------------ subscripts
    def getitem(self, b, i, st, node, fr):
        t = type(b)
        if isinstance(i, Part) and isinstance(i.f, Ext) and i.f.q == "builtins.slice":
            return self.getslice(b, i.args, st, node, fr)
        if t is Src:
            return self.src_char(b, i, st, node, fr)
        if t is Ext and b.q == "sys.modules" and isinstance(i, K) and i.v in self.p.modules:
            return [(st, Md(i.v))]
        if t is Tup or (t is K and isinstance(b.v, (str, tuple))):
            seq = list(b.items) if t is Tup else [K(c) for c in b.v]
            if isinstance(i, K) and isinstance(i.v, int):
                if -len(seq) <= i.v < len(seq):
                    return [(st, seq[i.v])]
                self.rx(st, "IndexError", node, fr, i)
                return []
            if t is K and isinstance(b.v, str):
                return [(st, self.typed(st, ("i", b, i), "builtins.str"))]
            return [(st, Top("tuple index"))]
        if t is K:
            self.rx(st, "TypeError", node, fr, K("not subscriptable"))
            return []
        if t in (St, Ch):
            return self.str_index(b, i, st, node, fr)
        if t is Obj:
            r = self.rec(st, b.a)
            if isinstance(r, LRec):
                return self.list_index(b, r, i, st, node, fr)
            if isinstance(r, DRec):
                return self.dict_index(b, r, i, st, node, fr)
            if isinstance(r, Inst) and r.ci is not None:
                if r.ci.lookup("__getitem__")[1] is not None:
                    return self.callmethod(b, "__getitem__", [i], st, node, fr)
                if not any(x != "builtins.object" for x in r.ci.ext_bases()):
                    self.rx(st, "TypeError", node, fr, K("not subscriptable"))
                    return []
            return [(st, Sy(("i", b, i)))]
        if t is Sy:
            return self.sym_index(b, i, st, node, fr)
        if t in (Cl, Ext):
            return [(st, b)]        # generic alias
        if t is Part and isinstance(b.f, Ext) and b.f.q == "builtins.vars":
            if isinstance(i, K) and isinstance(i.v, str):
                return self.getattr_(b.args[0], i.v, st, node, fr)
            return [(st, Sy(("vattr", b.args[0], i)))]
        return [(st, Top("subscript"))]

    def src_char(self, b, i, st, node, fr):
        p = as_lin(i)
        if p is None:
            if isinstance(i, K):
                self.rx(st, "TypeError", node, fr, K("string indices must be integers"))
                return []
            return [(st, Top("string index"))]
        out = []
        if not st.entails(p):
            n = st.fork()
            if n.assume(p.neg() - 1):
                # negative index
                L = len_sym(b.name)
                e = n.fork()
                if n.assume(p + L):
                    if n.set_char(b.name, p + L, ANYCH):
                        out.append((n, Ch(b.name, p + L)))
                if e.assume((p + L).neg() - 1):
                    self.rx(e, "IndexError", node, fr, K("string index out of range"))
            if not st.assume(p):
                return out
        e = st.fork()
        if e.set_char(b.name, p, EOFSET):
            self.rx(e, "IndexError", node, fr, K("string index out of range"))
        if st.set_char(b.name, p, ANYCH):
            out.append((st, Ch(b.name, p)))
        return out

    def str_index(self, b, i, st, node, fr):
        items = strs.debrick(strs.atoms_of(b, st), st)
        n = strs.minlen_items(items, st)
        if isinstance(i, K) and type(i.v) is int:
            k = i.v
            need = k + 1 if k >= 0 else -k
            if need > n:
                y = st.fork()
                self.rx(y, "IndexError", node, fr, K("string index out of range"))
                mx = strs.maxlen_items(items, st)
                if mx is not None and mx < need:
                    return []
            cs = strs.all_cs(items)
            lits = strs.lit_to_bricks(items)
            seq = lits if k >= 0 else lits[::-1]
            kk = k if k >= 0 else -k - 1
            for a in seq:
                if a[0] == "b" and a[2] == a[3]:
                    if kk < a[2]:
                        cs = a[1]
                        break
                    kk -= a[2]
                    continue
                if a[0] == "b" and kk == 0 and a[2] >= 1:
                    cs = a[1]
                break
            if cs is not None:
                return [(st, strs.mk((("b", cs, 1, 1),)))]
        elif n == 0 or not isinstance(i, K):
            self.rx(st.fork(), "IndexError", node, fr, K("string index out of range"))
        return [(st, self.typed(st, ("i", b, i), "builtins.str"))]

    def list_index(self, b, r, i, st, node, fr):
        if isinstance(i, K) and type(i.v) is int:
            k = i.v
            if r.exact():
                if -len(r.tail) <= k < len(r.tail):
                    return [(st, r.tail[k])]
                self.rx(st, "IndexError", node, fr, i)
                return []
            need = k + 1 if k >= 0 else -k
            if r.minlen() < need:
                y = st.fork()
                self.rx(y, "IndexError", node, fr, i)
            if k < 0 and -k <= len(r.tail):
                return [(st, r.tail[k])]
            if k == -1 and not r.tail and r.plast:
                cands = [v for v, _ in r.pre if tag_of_(self, st, v) in r.plast]
                if cands:
                    return self.choose(cands, st, fr, node)
            return self.choose([v for v, _ in r.pre] + list(r.tail), st, fr, node)
        y = st.fork()
        self.rx(y, "IndexError", node, fr, i)
        return self.choose(r.elems(), st, fr, node)

    def choose(self, vals, st, fr, node):
        out = []
        vals = sorted(set(vals), key=repr)
        for n, v in enumerate(vals):
            x = st.fork() if n < len(vals) - 1 else st
            out.append((x, self.materialize(v, x, fr, node)))
        return out

    def materialize(self, v, st, fr, node):
        if isinstance(v, Obj):
            r = st.heap.get(v.a)
            if isinstance(r, Inst) and r.many:
                f = dict(r.f)
                f["%org"] = v
                from .interp import at
                return self.alloc(st, fr, at(node, "mat" + str(v.a[-1])[:60]), Inst(r.ci, f, False, r.nt))
        return v

    def dict_index(self, b, r, i, st, node, fr):
        i = const_key(i, st)
        v = r.get(i)
        if v is not None:
            return [(st, v)]
        if r.rest is None and r.org is None:
            if isinstance(i, K) and all(isinstance(k, K) for k, _ in r.items):
                self.rx(st, "KeyError", node, fr, i)
                return []
            if isinstance(i, Sy) and len(r.items) <= 8:
                out = []
                cur = [st]
                for k, v in r.items:
                    nx = []
                    for y in cur:
                        for z, t in self.cmp_rel("Eq", i, k, y, node, fr, None, None):
                            for w, tt in self.truth(t, z):
                                if tt:
                                    out.append((w, v))
                                else:
                                    nx.append(w)
                    cur = nx
                for y in cur:
                    self.rx(y, "KeyError", node, fr, i)
                return out
            poss = [v for k, v in r.items if not (isinstance(i, K) and isinstance(k, K))]
            y = st.fork()
            self.rx(y, "KeyError", node, fr, i)
            return self.choose(poss, st, fr, node) if poss else []
        known = st.fact(("in", i, b)).const
        if known != TRUE:
            y = st.fork()
            y.facts[("in", i, b)] = Fact(const=FALSE)
            self.rx(y, "KeyError", node, fr, i)
            if known == FALSE:
                return []
            st.facts[("in", i, b)] = Fact(const=TRUE)
        out = []
        if r.rest:
            out.extend(self.choose(list(r.rest), st.fork(), fr, node))
        if r.org is not None or not r.rest:
            t = ("i", r.org if r.org is not None else b, i)
            out.append((st, Sy(t)))
        return out

    def sym_index(self, b, i, st, node, fr):
        f = st.fact(b.t)
        ov = st.heap.get(b)
        if isinstance(ov, DRec):
            v = ov.get(i)
            if v is not None:
                return [(st, v)]
        if f.types is not None and any(t[0] == "builtins.NoneType" for t in f.types):
            y = st.fork()
            y.facts[b.t] = f.with_(types=frozenset([("builtins.NoneType", ())]))
            self.rx(y, "TypeError", node, fr, K("'NoneType' object is not subscriptable"))
            rest = frozenset(t for t in f.types if t[0] != "builtins.NoneType")
            if not rest:
                return []
            f = f.with_(types=rest)
            st.facts[b.t] = f
        names = {t[0] for t in f.types} if f.types is not None else set()
        if names & {"builtins.list", "builtins.tuple", "builtins.str"} and not names - {
                "builtins.list", "builtins.tuple", "builtins.str"}:
            if not (isinstance(i, K) and i.v in (0, -1) and f.truth):
                y = st.fork()
                self.rx(y, "IndexError", node, fr, i)
        elif names == {"builtins.dict"} or not names:
            k = ("in", i, b)
            known = st.fact(k).const
            if known != TRUE:
                y = st.fork()
                y.facts[k] = Fact(const=FALSE)
                self.rx(y, "KeyError" if names else "LookupError", node, fr, i)
                if known == FALSE:
                    return []
                st.facts[k] = Fact(const=TRUE)
        t = ("i", b, i)
        ty = self.elem_types(st, b, i)
        if ty is not None:
            st.facts.setdefault(t, Fact(ty))
        return [(st, Sy(t))]

    def getslice(self, b, args, st, node, fr):
        lo, hi, step = args
        if isinstance(b, K) and isinstance(b.v, (str, tuple)) and all(isinstance(x, K) for x in args):
            try:
                return [(st, K(b.v[lo.v:hi.v:step.v]))]
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
        if isinstance(b, Src) and step == NONE_:
            return self.src_slice(b, lo, hi, st, node, fr)
        if isinstance(b, Tup) and all(isinstance(x, K) for x in args):
            return [(st, Tup(b.items[lo.v:hi.v:step.v]))]
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, LRec):
                if r.exact() and all(isinstance(x, K) for x in args):
                    return [(st, self.alloc(st, fr, node, LRec(tail=r.tail[lo.v:hi.v:step.v])))]
                if lo == NONE_ and hi == NONE_ and step == NONE_:
                    return [(st, self.alloc(st, fr, node, r))]
                pre = {}
                for v in r.elems():
                    pre[v] = 2
                return [(st, self.alloc(st, fr, node, LRec(frozenset(pre.items()), (), r.pairs, r.plast, r.org)))]
        if is_str(b):
            items = strs.debrick(strs.atoms_of(b, st), st)
            if all(isinstance(x, K) for x in args) and step == NONE_:
                r = strs_slice(items, lo.v, hi.v)
                if r is not None:
                    return [(st, strs.mk(r))]
            cs = strs.all_cs(items)
            if cs is not None:
                return [(st, strs.mk((("b", cs, 0, None),)))]
            return [(st, self.typed(st, ("slice", b, args), "builtins.str"))]
        if isinstance(b, Sy):
            f = st.fact(b.t)
            t = ("slice", b, args)
            if f.types is not None:
                st.facts.setdefault(t, Fact(frozenset(x for x in f.types if x[0] != "builtins.NoneType")))
            return [(st, Sy(t))]
        return [(st, Top("slice"))]

    def src_slice(self, b, lo, hi, st, node, fr):
        L = len_sym(b.name)
        x = lin(0) if lo == NONE_ else as_lin(lo)
        y = L if hi == NONE_ else as_lin(hi)
        if x is None or y is None:
            return [(st, self.typed(st, ("slice", b, (lo, hi)), "builtins.str"))]
        if not st.entails(x) or not st.entails(y):
            if not st.entails(x) and not (x.t == () and x.c < 0):
                n = st.fork()
                if n.assume(x.neg() - 1):
                    self.unsup(node, fr, "possibly negative slice bound")
                    self.emit("on_negslice", n, node, fr)
            if not st.assume(x) or not st.assume(y):
                return [(st, self.typed(st, ("slice", b, (lo, hi)), "builtins.str"))]
        out = []
        # clamp the upper bound
        if st.entails(L - y):
            ys = [(st, y)]
        else:
            z = st.fork()
            ys = []
            if z.assume(y - L - 1):
                ys.append((z, L))
            if st.assume(L - y):
                ys.append((st, y))
        for s, yy in ys:
            if s.entails(x - yy):
                out.append((s, K("")))
                continue
            if not s.entails(yy - x):
                e = s.fork()
                if e.assume(x - yy - 1):
                    out.append((e, K("")))
                if not s.assume(yy - x):
                    continue
            out.append((s, strs.mk((("sl", b.name, x, yy),))))
        return out

    def setitem(self, b, i, v, st, node, fr):
        self.emit("on_mutate", st, b, "setitem", (i, v), node, fr)
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, DRec):
                self.drop_in(st, b)
                st.heap[b.a] = self.dict_put(r, i, v, st)
                self.emit("on_dictput", st, b, i, v, node, fr)
                return [st]
            if isinstance(r, LRec):
                if isinstance(i, Part):       # slice assignment
                    if i.args == (NONE_, NONE_, NONE_):
                        st.heap[b.a] = LRec()
                        return self.list_extend_states(b, v, st, node, fr)
                    pre = dict(r.pre)
                    for x in r.tail:
                        pre[x] = 2
                    vr = self.rec(st, v.a) if isinstance(v, Obj) else None
                    for x in (vr.elems() if isinstance(vr, LRec) else [Top("slice")]):
                        pre[x] = 2
                    st.heap[b.a] = LRec(frozenset(pre.items()), (), frozenset(), frozenset(), r.org)
                    return [st]
                if isinstance(i, K) and type(i.v) is int and -len(r.tail) <= i.v < (len(r.tail) if r.exact() else 0):
                    tail = list(r.tail)
                    tail[i.v] = v
                    st.heap[b.a] = LRec(r.pre, tuple(tail), r.pairs, r.plast, r.org, r.pmin)
                    self.emit("on_elem", st, b, v, node, fr)
                    return [st]
                if r.minlen() == 0 or not isinstance(i, K):
                    y = st.fork()
                    self.rx(y, "IndexError", node, fr, i)
                pre = dict(r.pre)
                for x in r.tail:
                    pre[x] = 2
                pre[v] = 2
                self.emit("on_elem", st, b, v, node, fr)
                st.heap[b.a] = LRec(frozenset(pre.items()), (), r.pairs | {("?", "?")}, r.plast | {"?"}, r.org, r.pmin)
                return [st]
            if isinstance(r, Inst) and r.ci is not None and r.ci.lookup("__setitem__")[1] is not None:
                return [x for x, _ in self.callmethod(b, "__setitem__", [i, v], st, node, fr)]
        if isinstance(b, Sy):
            self.drop_in(st, b)
            ov = st.heap.get(b)
            d = ov if isinstance(ov, DRec) else DRec((), frozenset(), b.t)
            if isinstance(i, Part):
                st.heap.pop(b, None)
                return [st]
            # other keys may alias
            d = DRec(tuple((k, x) for k, x in d.items if k == i or (isinstance(k, K) and isinstance(i, K))),
                     d.rest, d.org, d.restk)
            st.heap[b] = d.set(i, v)
            st.facts[("in", i, b)] = Fact(const=TRUE)
            return [st]
        if isinstance(b, Part) and isinstance(b.f, Ext) and b.f.q == "builtins.vars" and isinstance(i, K):
            return self.setattr_(b.args[0], i.v, v, st, node, fr)
        return [st]

    def drop_in(self, st, b):
        st.drop_facts(lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "in" and t[2] == b)

    def delitem(self, b, i, st, node, fr):
        self.emit("on_mutate", st, b, "delitem", (i,), node, fr)
        if isinstance(b, Obj):
            r = self.rec(st, b.a)
            if isinstance(r, DRec):
                if r.get(i) is not None:
                    st.heap[b.a] = DRec(tuple(x for x in r.items if x[0] != i), r.rest, r.org, r.restk)
                    return [st]
                if r.rest is None and r.org is None and isinstance(i, K):
                    self.rx(st, "KeyError", node, fr, i)
                    return []
                y = st.fork()
                self.rx(y, "KeyError", node, fr, i)
                return [st]
            if isinstance(r, LRec):
                if isinstance(i, Part):
                    if i.args == (NONE_, NONE_, NONE_):
                        st.heap[b.a] = LRec()
                    else:
                        self.weaken_list(st, b)
                    return [st]
                if isinstance(i, K) and r.exact() and type(i.v) is int and -len(r.tail) <= i.v < len(r.tail):
                    t = list(r.tail)
                    del t[i.v]
                    st.heap[b.a] = LRec(tail=tuple(t))
                    return [st]
                if r.minlen() == 0:
                    y = st.fork()
                    self.rx(y, "IndexError", node, fr, i)
                self.weaken_list(st, b)
                return [st]
        if isinstance(b, Sy):
            y = st.fork()
            self.rx(y, "KeyError", node, fr, i)
            self.drop_in(st, b)
            st.facts[("in", i, b)] = Fact(const=FALSE)
        return [st]

    def weaken_list(self, st, b):
        """The list loses unknown elements."""
        r = st.heap[b.a]
        pre = dict(r.pre)
        for x in r.tail:
            pre[x] = 2
        tags = {tag_of_(self, st, x) for x in pre}
        st.heap[b.a] = LRec(frozenset(pre.items()), (), frozenset((x, y) for x in tags for y in tags),
                            frozenset(tags), r.org, 0)


def tag_of_(self, st, v):
    from .join import tag_of
    return tag_of(st, v)


def strs_slice(items, lo, hi):
    """Slice of bricks by constants; None when not exact."""
    items = strs.lit_to_bricks(items)
    cs = strs.all_cs(items)
    if lo in (None, 0) and hi is None:
        return items
    if lo is not None and lo > 0 and hi is None:
        out = list(items)
        n = lo
        while n and out:
            a = out[0]
            if a[0] != "b":
                return None if cs is None else (("b", cs, 0, None),)
            if a[2] >= n:
                out[0] = ("b", a[1], a[2] - n, None if a[3] is None else a[3] - n)
                if a[2] == a[3] or True:
                    n = 0
            elif a[2] == a[3]:
                n -= a[2]
                out.pop(0)
            else:
                return None if cs is None else (("b", cs, 0, None),)
        return tuple(out)
    if lo in (None, 0) and hi is not None and hi < 0:
        return (lambda r: None if r is None else tuple(r[::-1]))(strs_slice(tuple(reversed(items)), -hi, None))
    if cs is None:
        return None
    mn = strs.minlen_items(items)
    return (("b", cs, 0, None),)
