"""Methods of strings and containers."""
from . import strs
from .charset import CS, ANYCH, by_predicate, EOFSET
from .linear import lin
from .state import *  # noqa
from .state import fresh
from .values import *  # noqa

STR_RESULT = {
    "split": "list", "rsplit": "list", "splitlines": "list", "partition": "tuple", "rpartition": "tuple",
    "encode": "bytes", "count": "int", "find": "int", "rfind": "int", "index": "int", "rindex": "int",
    "startswith": "bool", "endswith": "bool", "isdigit": "bool", "isalpha": "bool", "isalnum": "bool",
    "isspace": "bool", "isnumeric": "bool", "isdecimal": "bool", "isupper": "bool", "islower": "bool",
    "isidentifier": "bool", "isprintable": "bool", "isascii": "bool", "istitle": "bool",
}
PREDICATES = {"isdigit", "isalpha", "isalnum", "isspace", "isnumeric", "isdecimal", "isupper", "islower",
              "isidentifier", "isprintable", "isascii", "istitle"}
LIST_MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__setitem__", "__delitem__",
            "__iadd__"}
DICT_MUT = {"update", "setdefault", "pop", "popitem", "clear", "__setitem__", "__delitem__", "__ior__"}
SET_MUT = {"add", "remove", "discard", "pop", "clear", "update", "difference_update", "intersection_update",
           "symmetric_difference_update"}
MUTATORS = LIST_MUT | DICT_MUT | SET_MUT | {"appendleft", "popleft", "extendleft"}


class StrMethods:
    def str_method(self, b, name, args, kw, st, node, fr):
        if isinstance(b, K) and all(isinstance(a, K) for a in args) and all(isinstance(v, K) for _, v in kw) \
                and name not in ("format", "join"):
            try:
                r = getattr(b.v, name)(*[a.v for a in args], **{k: v.v for k, v in kw})
            except AttributeError:
                pass
            except Exception as e:
                self.rx(st, type(e).__name__, node, fr, K(str(e)))
                return []
            else:
                return self.native_value(r, st, node, fr)
        m = getattr(self, "s_" + name, None)
        if m is not None:
            r = m(b, args, dict((k, v) for k, v in kw), st, node, fr)
            if r is not None:
                return r
        if name in PREDICATES:
            return self.s_pred(b, name, st)
        if name in ("index", "rindex"):
            self.rx(st.fork(), "ValueError", node, fr, K("substring not found"))
        if name == "encode":
            self.rx(st.fork(), "UnicodeEncodeError", node, fr)
        t = ("m", name, b, tuple(a for a in args if not isinstance(a, tuple)))
        res = STR_RESULT.get(name, "str")
        if res == "list":
            o = self.alloc(st, fr, node, LRec(frozenset([(self.typed(st, ("elem", Sy(t)), "builtins.str"), 2)]), (),
                                              frozenset([("?", "?")]), frozenset(["?"]), None,
                                              1 if name == "split" or name == "rsplit" else 0))
            return [(st, o)]
        if res == "tuple":
            return [(st, Tup(tuple(self.typed(st, ("elem", Sy(t), i), "builtins.str") for i in range(3))))]
        if res == "int":
            s = symlin(fresh("i"))
            st.assume(s + 1)
            return [(st, I_(s))]
        if res == "bool":
            return self.split_term(t, True, st)
        return [(st, self.typed(st, t, "builtins." + res))]

    def native_value(self, r, st, node, fr):
        if isinstance(r, list):
            return [(st, self.alloc(st, fr, node, LRec(tail=tuple(K(x) for x in r))))]
        if isinstance(r, tuple):
            return [(st, Tup(tuple(K(x) for x in r)))]
        return [(st, K(r))]

    # ------------------------------------------------------------ predicates
    def s_pred(self, b, name, st):
        if isinstance(b, Ch):
            return self.split_char(b.src, b.p, by_predicate(name), st)
        if isinstance(b, (St, Src)):
            items = strs.debrick(strs.atoms_of(b, st), st)
            cs = strs.all_cs(items)
            if cs is not None and name in ("isdigit", "isalpha", "isalnum", "isspace", "isdecimal", "isnumeric"):
                p = by_predicate(name)
                if strs.minlen_items(items, st) > 0:
                    if not cs & p:
                        return [(st, FALSE)]
                    if cs.issubset(p):
                        return [(st, TRUE)]
        return self.split_term(("m", name, b, ()), True, st)

    # ------------------------------------------------------------ startswith / endswith
    def s_startswith(self, b, args, kw, st, node, fr):
        if not args:
            return None
        pat = args[0]
        if isinstance(pat, Tup) and all(isinstance(x, K) for x in pat.items):
            pat = K(tuple(x.v for x in pat.items))
        if not isinstance(pat, K):
            return None
        pats = pat.v if isinstance(pat.v, tuple) else (pat.v,)
        if not all(isinstance(p, str) for p in pats):
            return None
        if isinstance(b, Src) or isinstance(b, Ch):
            src = b.name if isinstance(b, Src) else b.src
            pos = as_lin(args[1]) if len(args) > 1 else lin(0)
            if isinstance(b, Ch):
                if len(args) > 1 or any(len(p) > 1 for p in pats):
                    return None
                pos = b.p
            if pos is None or len(args) > 2 or not st.entails(pos):
                return [(st.fork(), TRUE), (st, FALSE)]
            out = []
            if all(len(p) == 1 for p in pats):
                return self.split_char(src, pos, CS.of(*pats), st)
            for p in pats:
                y = st.fork()
                if all(y.set_char(src, pos + i, CS.of(c)) for i, c in enumerate(p)):
                    out.append((y, TRUE))
            # some character differs, or the text ends
            if len(pats) == 1:
                p = pats[0]
                y = st
                for i, c in enumerate(p):
                    z = y.fork()
                    if z.set_char(src, pos + i, CS.of(c).comp()):
                        out.append((z, FALSE))
                    if not y.set_char(src, pos + i, CS.of(c)):
                        break
            else:
                out.append((st, FALSE))
            return out
        if isinstance(b, (St,)):
            items = strs.lit_to_bricks(strs.debrick(strs.atoms_of(b, st), st))
            r = set()
            for p in pats:
                r.add(self.prefix_of(items, p, st))
            if True in r:
                return [(st, TRUE)]
            if r == {False}:
                return [(st, FALSE)]
            return self.split_term(("m", "startswith", b, tuple(args)), True, st)
        return None

    def prefix_of(self, items, p, st):
        i = 0
        sure = True
        for a in items:
            if i >= len(p):
                break
            if a[0] != "b":
                return None
            if a[2] != a[3]:
                # one character for sure?
                if a[2] >= 1 and p[i] not in a[1]:
                    return False
                if a[2] == 0 and p[i] not in a[1]:
                    return None if items[-1] is not a else False
                return None
            for _ in range(a[2]):
                if i >= len(p):
                    break
                if p[i] not in a[1]:
                    return False
                if a[1].single() is None:
                    sure = False
                i += 1
        if i < len(p):
            return False
        return True if sure else None

    def s_endswith(self, b, args, kw, st, node, fr):
        if not args or len(args) > 1 or not isinstance(args[0], K) or not isinstance(args[0].v, str):
            return None
        if isinstance(b, Ch):
            return self.s_startswith(b, args, kw, st, node, fr)
        if isinstance(b, (St, Src)):
            items = strs.lit_to_bricks(strs.debrick(strs.atoms_of(b, st), st))
            r = self.prefix_of(tuple(reversed(items)), args[0].v[::-1], st)
            if r is not None:
                return [(st, TRUE if r else FALSE)]
            return self.split_term(("m", "endswith", b, tuple(args)), True, st)
        return None

    # ------------------------------------------------------------ strip
    def s_strip(self, b, args, kw, st, node, fr):
        out = []
        for x, v in self.strip_end(b, args, st, True) or []:
            out.extend(self.strip_end(v, args, x, False) or [(x, v)])
        return out or None

    def s_rstrip(self, b, args, kw, st, node, fr):
        return self.strip_end(b, args, st, True)

    def s_lstrip(self, b, args, kw, st, node, fr):
        return self.strip_end(b, args, st, False)

    def strip_end(self, b, args, st, right):
        if isinstance(b, K):
            if not args or (isinstance(args[0], K)):
                a = [x.v for x in args]
                return [(st, K(b.v.rstrip(*a) if right else b.v.lstrip(*a)))]
        if not isinstance(b, (St, Ch, Src)):
            return None
        if args and not (isinstance(args[0], K) and (args[0].v is None or isinstance(args[0].v, str))):
            return None
        cs = by_predicate("isspace") if not args or args[0].v is None else CS.of(*args[0].v)
        items = strs.atoms_of(b, st)
        seq = list(items if right else reversed(items))
        results = []

        def fin(pre, tail):
            """pre: remaining atoms, tail: atoms kept of the cut one."""
            its = tuple(pre) + tuple(tail)
            results.append(its)
        while seq:
            a = seq.pop()
            if a[0] == "l":
                t = a[1].rstrip("".join(c for c in set(a[1]) if c in cs)) if right else \
                    a[1].lstrip("".join(c for c in set(a[1]) if c in cs))
                if t:
                    fin(seq, (("l", t),))
                    break
                continue
            if a[0] == "sl":
                c = st.range_cs(a[1], a[2], a[3])
                if not (c & cs):
                    fin(seq, (a,)) if strs.minlen_items((a,), st) else fin(seq, (a,))
                    if strs.minlen_items((a,), st) > 0:
                        break
                    continue
                (a,) = strs.debrick((a,), st) or (("b", CS(), 0, 0),)
            if a[0] == "b":
                keep = a[1] - cs
                if not (a[1] & cs):
                    fin(seq, (a,))
                    if a[2] > 0:
                        break
                    continue
                if keep:
                    one = ("b", keep, 1, 1)
                    rest = ("b", a[1], 0, None if a[3] is None else max(a[3] - 1, 0))
                    fin(seq, (rest, one))
                continue
            if a[0] == "*":
                c = strs.all_cs((a,))
                if c is None:
                    return None
                if not (c & cs):
                    fin(seq, (a,))
                    if strs.minlen_items((a,)) > 0:
                        break
                    continue
                keep = c - cs
                if keep:
                    fin(seq, (("*", a[1], 0) + a[3:], ("b", c, 0, None), ("b", keep, 1, 1)))
                continue
            return None
        else:
            fin((), ())
        out = []
        seen = set()
        for i, its in enumerate(results):
            v = strs.mk(its if right else tuple(reversed(its)))
            if v in seen:
                continue
            seen.add(v)
            out.append((st.fork(), v))
        return out

    # ------------------------------------------------------------ join, replace, split, find
    def s_join(self, b, args, kw, st, node, fr):
        (a,) = args[:1] or (None,)
        if a is None:
            return None
        if isinstance(a, Gen) or (isinstance(a, Part) and isinstance(a.f, Ext) and a.f.q in ("builtins.map",
                                                                                        "builtins.filter")):
            out = []
            for x, l in self.to_list(a, st, node, fr):
                out.extend(self.s_join(b, [l], kw, x, node, fr) or [])
            return out
        items = self.seq_items(a, st)
        if items is not None:
            its = ()
            for i, x in enumerate(items):
                if i:
                    its += strs.atoms_of(b, st)
                xa = self.join_atom(x, st, node, fr)
                if xa is None:
                    return []
                its += xa
            return [(st, strs.mk(its))]
        if isinstance(a, Obj):
            r = self.rec(st, a.a)
            if isinstance(r, LRec) and r.org is None:
                sep = strs.atoms_of(b, st)
                if sep is None:
                    return None
                alts = set()
                for v, _ in r.pre:
                    xa = self.join_atom(v, st, node, fr)
                    if xa is None:
                        return []
                    alts.add(xa)
                tl = ()
                for i, v in enumerate(r.tail):
                    xa = self.join_atom(v, st, node, fr)
                    if xa is None:
                        return []
                    tl += (sep if i or r.pre else ()) + xa
                if not sep:
                    return [(st, strs.mk((("*", frozenset(alts), r.pmin),) + tl))]
                # first element, then separator + element repeated
                out = []
                if not r.pmin:
                    t0 = ()
                    for i, v in enumerate(r.tail):
                        t0 += (sep if i else ()) + self.join_atom(v, st, node, fr)
                    out.append((st.fork(), strs.mk(t0)))
                more = ("*", frozenset(sep + x for x in alts), 0)
                for x in sorted(alts, key=repr):
                    out.append((st.fork(), strs.mk(x + (more,) + tl)))
                return out
        if isinstance(a, (K, Fn, Cl)) and not (isinstance(a, K) and isinstance(a.v, (str, tuple))):
            self.rx(st, "TypeError", node, fr, K("can only join an iterable"))
            return []
        if isinstance(a, Sy):
            et = self.elem_types(st, a)
            if et is None or any(t[0] != "builtins.str" for t in et):
                y = st.fork()
                self.rx(y, "TypeError", node, fr, K("sequence item: expected str instance"))
        return [(st, self.typed(st, ("join", b, a), "builtins.str"))]

    def join_atom(self, v, st, node, fr):
        if is_str(v):
            return tuple(strs.atoms_of(v, st))
        if isinstance(v, Sy):
            f = st.fact(v.t)
            if f.types is None or any(t[0] != "builtins.str" for t in f.types):
                if f.types is not None and not any(t[0] == "builtins.str" for t in f.types):
                    self.rx(st, "TypeError", node, fr, K("sequence item: expected str instance"))
                    return None
                y = st.fork()
                self.rx(y, "TypeError", node, fr, K("sequence item: expected str instance"))
                st.facts[v.t] = f.with_(types=frozenset([("builtins.str", ())]))
            return (("v", v),)
        if isinstance(v, Top):
            return (("v", v),)
        if isinstance(v, Obj):
            r = self.rec(st, v.a)
            if isinstance(r, Inst) and r.ci is not None and any(x == "builtins.str" for x in r.ci.ext_bases()):
                return (("v", v),)
        self.rx(st, "TypeError", node, fr, K("sequence item: expected str instance"))
        return None

    def s_replace(self, b, args, kw, st, node, fr):
        if len(args) < 2 or not (isinstance(args[0], K) and isinstance(args[0].v, str) and len(args[0].v) == 1
                                 and is_str(args[1])):
            return None
        items = strs.atoms_of(b, st)
        if items is None:
            return None
        r = self.map_chars(items, {args[0].v: strs.atoms_of(args[1], st)}, st)
        return None if r is None else [(st, strs.mk(r))]

    def map_chars(self, items, m, st):
        """Replace single characters by atom sequences."""
        cs = CS.of(*m)
        out = ()
        for a in items:
            if a[0] == "l":
                cur = ""
                for c in a[1]:
                    if c in m:
                        out += strs.lit_atoms(cur) + tuple(m[c])
                        cur = ""
                    else:
                        cur += c
                out += strs.lit_atoms(cur)
                continue
            if a[0] == "sl":
                c = st.range_cs(a[1], a[2], a[3])
                if not c & cs:
                    out += (a,)
                    continue
                d = strs.debrick((a,), st)
                if not d:
                    continue
                a = d[0]
            if a[0] == "b":
                if not a[1] & cs:
                    out += (a,)
                    continue
                alts = set()
                if a[1] - cs:
                    alts.add((("b", a[1] - cs, 1, 1),))
                for c in m:
                    if c in a[1]:
                        alts.add(tuple(m[c]))
                out += (("*", frozenset(alts), 1 if a[2] else 0),)
                continue
            if a[0] == "*":
                alts = set()
                for x in a[1]:
                    r = self.map_chars(x, m, st)
                    if r is None:
                        return None
                    alts.add(tuple(r))
                out += (("*", frozenset(alts), a[2]) + a[3:],)
                continue
            if a[0] == "v":
                out += (("v", Sy(("mapchars", a[1], tuple(sorted(m.items(), key=repr))))),)
                continue
            return None
        return out

    def s_split(self, b, args, kw, st, node, fr):
        if not args or not isinstance(args[0], K) or not isinstance(args[0].v, str) or len(args[0].v) != 1:
            return None
        if len(args) > 1:
            return None
        items = strs.debrick(strs.atoms_of(b, st), st) if is_str(b) else None
        cs = strs.all_cs(items) if items is not None else None
        if cs is None:
            return None
        keep = cs - CS.of(args[0].v)
        if cs == keep:
            return [(st, self.alloc(st, fr, node, LRec(tail=(b,))))]
        el = strs.mk((("b", keep, 0, None),))
        return [(st, self.alloc(st, fr, node, LRec(frozenset([(el, 2)]), (), frozenset([("str", "str")]),
                                                   frozenset(["str"]), None, 1)))]

    def s_splitlines(self, b, args, kw, st, node, fr):
        return None

    def s_find(self, b, args, kw, st, node, fr):
        if isinstance(b, Src) and args and isinstance(args[0], K) and isinstance(args[0].v, str) and args[0].v:
            lo = as_lin(args[1]) if len(args) > 1 else lin(0)
            if lo is None or not st.entails(lo):
                return None
            s = symlin(fresh("f"))
            y = st.fork()
            out = [(y, K(-1))]
            if st.assume(s - lo) and st.assume(len_sym(b.name) - s - len(args[0].v)):
                if len(args) > 2 and as_lin(args[2]) is not None:
                    if not st.assume(as_lin(args[2]) - s - len(args[0].v)):
                        return out
                for i, c in enumerate(args[0].v):
                    if not st.set_char(b.name, s + i, CS.of(c)):
                        return out
                if len(args[0].v) == 1:
                    st.ranges[(b.name, lo, s)] = ANYCH - CS.of(args[0].v)
                out.append((st, I_(s)))
            return out
        return None

    def s_rfind(self, b, args, kw, st, node, fr):
        if isinstance(b, Src) and args and isinstance(args[0], K) and isinstance(args[0].v, str) and args[0].v:
            pat = args[0].v
            lo = as_lin(args[1]) if len(args) > 1 else lin(0)
            if lo is None or not st.entails(lo):
                return None
            hi = as_lin(args[2]) if len(args) > 2 else None
            if hi is not None and not st.entails(hi):
                return None
            s = symlin(fresh("f"))
            y = st.fork()
            out = [(y, K(-1))]
            if st.assume(s - lo) and st.assume(len_sym(b.name) - s - len(pat)):
                if hi is not None and not st.assume(hi - s - len(pat)):
                    return out
                for i, c in enumerate(pat):
                    if not st.set_char(b.name, s + i, CS.of(c)):
                        return out
                if len(pat) == 1 and hi is not None and st.entails(len_sym(b.name) - hi):
                    st.ranges[(b.name, s + 1, hi)] = ANYCH - CS.of(pat)
                out.append((st, I_(s)))
            return out
        return None

    def s_format(self, b, args, kw, st, node, fr):
        if isinstance(b, K):
            import string
            try:
                parts = list(string.Formatter().parse(b.v))
            except ValueError as e:
                self.rx(st, "ValueError", node, fr, K(str(e)))
                return []
            out = ()
            n = 0
            for lit, field, spec, conv in parts:
                out += strs.lit_atoms(lit)
                if field is None:
                    continue
                key = field
                if key == "":
                    key = str(n)
                    n += 1
                v = None
                if key.isdigit():
                    if int(key) < len(args) and not any(isinstance(a, tuple) for a in args):
                        v = args[int(key)]
                    elif not any(isinstance(a, tuple) for a in args):
                        self.rx(st, "IndexError", node, fr, K("Replacement index out of range"))
                        return []
                elif key in kw:
                    v = kw[key]
                elif "**" not in kw and key.isidentifier():
                    self.rx(st, "KeyError", node, fr, K(key))
                    return []
                if v is None or spec:
                    out += (("v", Sy(("fmt", v if v is not None else Top("format"), spec or ""))),)
                else:
                    out += tuple(self.to_str_atoms(v, st, ord(conv) if conv else -1))
            return [(st, strs.mk(out))]
        # an unknown template: KeyError, IndexError possible
        self.rx(st.fork(), "KeyError", node, fr)
        if not (isinstance(b, Sy)):
            self.rx(st.fork(), "ValueError", node, fr)
        return [(st, self.typed(st, ("fmt", b, tuple(a for a in args if not isinstance(a, tuple)),
                                     tuple(sorted(kw.items(), key=lambda p: p[0]))), "builtins.str"))]

    def s_upper(self, b, args, kw, st, node, fr):
        return self.case(b, str.upper, st)

    def s_lower(self, b, args, kw, st, node, fr):
        return self.case(b, str.lower, st)

    def case(self, b, fn, st):
        items = strs.atoms_of(b, st)
        if items is None:
            return None
        items = strs.debrick(items, st)
        out = []
        for a in items:
            if a[0] == "l":
                out.append(("l", fn(a[1])))
            elif a[0] == "b" and not a[1] - CS.rng(0, 127):
                cs = CS()
                for lo, hi in a[1].iv:
                    cs = cs | CS.of(*[fn(chr(c)) for c in range(max(lo, 0), hi + 1)])
                out.append(("b", cs, a[2], a[3]))
            else:
                return None
        return [(st, strs.mk(tuple(out)))]

    # ------------------------------------------------------------ containers
    def container_method(self, o, r, name, args, kw, st, node, fr):
        if isinstance(r, LRec):
            return self.list_method(o, r, name, args, kw, st, node, fr)
        if isinstance(r, DRec):
            return self.dict_method(o, r, name, args, kw, st, node, fr)
        if isinstance(r, SRec):
            return self.set_method(o, r, name, args, kw, st, node, fr)
        return None

    def list_method(self, o, r, name, args, kw, st, node, fr):
        if name in LIST_MUT:
            self.emit("on_mutate", st, o, name, tuple(a for a in args if not isinstance(a, tuple)), node, fr)
        if name == "append":
            return [(self.list_append(o, args[0], st, node, fr), NONE_)]
        if name in ("extend", "__iadd__"):
            return [(x, NONE_) for x in self.list_extend_states(o, args[0], st, node, fr)]
        if name == "insert":
            if r.exact() and isinstance(args[0], K) and type(args[0].v) is int:
                t = list(r.tail)
                t.insert(args[0].v, args[1])
                self.emit("on_elem", st, o, args[1], node, fr)
                st.heap[o.a] = LRec(tail=tuple(t))
                return [(st, NONE_)]
            pre = dict(r.pre)
            for x in r.tail + (args[1],):
                pre[x] = 2
            self.emit("on_elem", st, o, args[1], node, fr)
            st.heap[o.a] = LRec(frozenset(pre.items()), (), frozenset([("?", "?")]), frozenset("?"), r.org, 1)
            return [(st, NONE_)]
        if name == "pop":
            i = args[0] if args else K(-1)
            if r.tail and isinstance(i, K) and i.v == -1:
                st.heap[o.a] = LRec(r.pre, r.tail[:-1], r.pairs, r.plast, r.org, r.pmin)
                return [(st, r.tail[-1])]
            if r.exact() and isinstance(i, K) and type(i.v) is int:
                if -len(r.tail) <= i.v < len(r.tail):
                    t = list(r.tail)
                    v = t.pop(i.v)
                    st.heap[o.a] = LRec(tail=tuple(t))
                    return [(st, v)]
                self.rx(st, "IndexError", node, fr, K("pop from empty list"))
                return []
            if r.minlen() == 0:
                y = st.fork()
                self.rx(y, "IndexError", node, fr, K("pop from empty list"))
            out = []
            vals = r.elems() or [Sy(("elem", o))]
            for x, v in self.choose(vals, st, fr, node):
                self.weaken_list(x, o)
                out.append((x, v))
            return out
        if name in ("remove",):
            y = st.fork()
            self.rx(y, "ValueError", node, fr, K("list.remove(x): x not in list"))
            self.weaken_list(st, o)
            return [(st, NONE_)]
        if name == "clear":
            st.heap[o.a] = LRec()
            return [(st, NONE_)]
        if name in ("sort", "reverse"):
            if r.exact() and name == "reverse":
                st.heap[o.a] = LRec(tail=r.tail[::-1])
                return [(st, NONE_)]
            for k, v in kw:
                if k == "key":
                    for e in r.elems()[:8]:
                        self.call(v, [e], [], st.fork(), node, fr)
            mn = r.minlen()
            self.weaken_list(st, o)
            q = st.heap[o.a]
            st.heap[o.a] = LRec(q.pre, q.tail, q.pairs, q.plast, q.org, min(mn, 1))
            return [(st, NONE_)]
        if name == "copy":
            return [(st, self.alloc(st, fr, node, LRec(r.pre, r.tail, r.pairs, r.plast, r.org, r.pmin)))]
        if name == "count":
            s = symlin(fresh("i"))
            st.assume(s)
            return [(st, I_(s))]
        if name == "index":
            self.rx(st.fork(), "ValueError", node, fr)
            s = symlin(fresh("i"))
            st.assume(s)
            return [(st, I_(s))]
        if name == "__len__":
            return self.b_len([o], [], st, node, fr)
        if name == "__getitem__":
            return self.getitem(o, args[0], st, node, fr)
        if name == "__iter__":
            return [(st, Part(Ext("builtins.iter"), (o,), ()))]
        if not hasattr([], name):
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        return [(st, Sy(("m", name, o, tuple(args))))]

    def dict_method(self, o, r, name, args, kw, st, node, fr):
        if args and name in ("get", "setdefault", "pop") and isinstance(args[0], Sy):
            c = st.fact(args[0].t).const
            if isinstance(c, K):
                args = [c] + list(args[1:])
        if name in DICT_MUT:
            self.emit("on_mutate", st, o, name, tuple(a for a in args if not isinstance(a, tuple)), node, fr)
        if name in ("items", "keys", "values"):
            return [(st, Part(Ext("builtins.dict." + name), (o,), ()))]
        if name == "get":
            dflt = args[1] if len(args) > 1 else NONE_
            v = r.get(args[0])
            if v is not None:
                return [(st, v)]
            out = []
            self.excs.append([])
            hits = self.dict_index(o, r, args[0], st.fork(), node, fr)
            lost = self.excs.pop()
            out.extend(hits)
            if lost or not hits:
                for y, _ in (lost or [(st, None)]):
                    out.append((y, dflt))
            return out
        if name == "setdefault":
            dflt = args[1] if len(args) > 1 else NONE_
            v = r.get(args[0])
            if v is not None:
                return [(st, v)]
            out = []
            self.excs.append([])
            hits = self.dict_index(o, r, args[0], st.fork(), node, fr)
            lost = self.excs.pop()
            out.extend(hits)
            for y, _ in (lost or ([(st, None)] if not hits else [])):
                self.drop_in(y, o)
                y.heap[o.a] = self.dict_put(self.rec(y, o.a), args[0], dflt, y)
                self.emit("on_dictput", y, o, args[0], dflt, node, fr)
                out.append((y, dflt))
            return out
        if name == "pop":
            v = r.get(args[0])
            if v is not None:
                st.heap[o.a] = DRec(tuple(p for p in r.items if p[0] != args[0]), r.rest, r.org, r.restk)
                self.drop_in(st, o)
                return [(st, v)]
            out = []
            self.excs.append([])
            hits = self.dict_index(o, r, args[0], st.fork(), node, fr)
            lost = self.excs.pop()
            for y, v in hits:
                self.drop_in(y, o)
                out.append((y, v))
            for y, e in lost:
                if len(args) > 1:
                    out.append((y, args[1]))
                else:
                    self.excs[-1].append((y, e))
            if not lost and not hits:
                if len(args) > 1:
                    out.append((st, args[1]))
                else:
                    self.rx(st, "KeyError", node, fr, args[0])
            return out
        if name == "update":
            self.drop_in(st, o)
            d = r
            for a in args:
                if isinstance(a, tuple):
                    continue
                d = self.dict_update(d, a, st)
            for k, v in kw:
                d = self.dict_update(d, v, st) if k == "**" else self.dict_put(d, K(k), v, st)
            st.heap[o.a] = d
            self.emit("on_dictput", st, o, None, None, node, fr)
            return [(st, NONE_)]
        if name == "copy":
            return [(st, self.alloc(st, fr, node, DRec(r.items, r.rest, r.org, r.restk)))]
        if name == "clear":
            self.drop_in(st, o)
            st.heap[o.a] = DRec()
            return [(st, NONE_)]
        if name == "__contains__":
            return self.cmp_in(True, args[0], o, st, node, fr)
        if name == "__getitem__":
            return self.getitem(o, args[0], st, node, fr)
        if name == "__setitem__":
            return [(x, NONE_) for x in self.setitem(o, args[0], args[1], st, node, fr)]
        if not hasattr({}, name):
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        return [(st, Sy(("m", name, o, tuple(args))))]

    def const_sets(self, r, args, st):
        """The members of a set and of some iterables, when all are known constants."""
        if r.rest is not None or r.org is not None or not all(isinstance(x, K) for x in r.items):
            return None
        out = [set(r.items)]
        for a in args:
            it = self.seq_items(a, st)
            ra = self.rec(st, a.a) if isinstance(a, Obj) else None
            if isinstance(ra, SRec) and ra.rest is None and ra.org is None:
                it = ra.items
            elif isinstance(ra, DRec) and ra.rest is None and ra.org is None:
                it = [k for k, _ in ra.items]
            if it is None or not all(isinstance(x, K) for x in it):
                return None
            out.append(set(it))
        return out

    def set_method(self, o, r, name, args, kw, st, node, fr):
        if name in SET_MUT:
            self.emit("on_mutate", st, o, name, tuple(a for a in args if not isinstance(a, tuple)), node, fr)
        if name == "add":
            self.set_add(o, args[0], st)
            return [(st, NONE_)]
        if name in ("remove", "discard"):
            if args[0] in r.items:
                st.heap[o.a] = SRec(r.items - {args[0]}, r.rest, r.org, r.froz)
                return [(st, NONE_)]
            if r.rest is None and r.org is None and all(isinstance(x, K) for x in r.items | {args[0]}):
                if name == "remove":
                    self.rx(st, "KeyError", node, fr, args[0])
                    return []
                return [(st, NONE_)]
            if name == "remove":
                y = st.fork() if (r.rest is not None or r.org is not None or r.items) else st
                self.rx(y, "KeyError", node, fr, args[0])
                if y is st:
                    return []
            st.heap[o.a] = SRec(frozenset(), frozenset(r.items) | (r.rest or frozenset()), r.org, r.froz)
            return [(st, NONE_)]
        if name == "update":
            items = self.seq_items(args[0], st) if args else []
            if items is not None:
                for v in items:
                    self.set_add(o, v, st)
            else:
                st.heap[o.a] = SRec(r.items, r.rest or frozenset(), ("upd", args[0]), r.froz, r.some)
            return [(st, NONE_)]
        if name == "clear":
            st.heap[o.a] = SRec()
            return [(st, NONE_)]
        if name == "copy":
            return [(st, self.alloc(st, fr, node, SRec(r.items, r.rest, r.org, r.froz, r.some)))]
        if name == "__contains__":
            return self.cmp_in(True, args[0], o, st, node, fr)
        if name in ("difference_update", "intersection_update", "symmetric_difference_update", "update"):
            known = self.const_sets(r, args, st)
            if known is not None:
                cur = known[0]
                for x in known[1:]:
                    cur = {"d": cur - x, "i": cur & x, "s": cur ^ x, "u": cur | x}[name[0]]
                st.heap[o.a] = SRec(frozenset(cur), None, None, r.froz)
                return [(st, NONE_)]
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            known = self.const_sets(r, args, st)
            if known is not None:
                cur = known[0]
                for x in known[1:]:
                    cur = {"d": cur - x, "i": cur & x, "s": cur ^ x, "u": cur | x}[name[0]]
                return [(st, self.alloc(st, fr, node, SRec(frozenset(cur), None, None, r.froz)))]
            rest = set(r.items) | set(r.rest or ())
            for a in args:
                it = self.seq_items(a, st)
                ra = self.rec(st, a.a) if isinstance(a, Obj) else None
                if it is not None:
                    rest |= set(it)
                elif isinstance(ra, SRec):
                    rest |= set(ra.items) | set(ra.rest or ())
                else:
                    rest.add(Sy(("elem", a)))
            return [(st, self.alloc(st, fr, node, SRec(frozenset(), frozenset(rest), r.org)))]
        if name in ("issubset", "issuperset", "isdisjoint"):
            return [(st.fork(), TRUE), (st, FALSE)]
        if name == "pop":
            self.rx(st.fork(), "KeyError", node, fr)
            vals = list(r.items) + list(r.rest or ())
            st.heap[o.a] = SRec(frozenset(), frozenset(vals), r.org, r.froz)
            return self.choose(vals, st, fr, node) if vals else []
        if not hasattr(set(), name):
            self.rx(st, "AttributeError", node, fr, K(name))
            return []
        return [(st, Sy(("m", name, o, tuple(args))))]

    # ------------------------------------------------------------ symbolic containers
    def sym_method(self, b, name, args, kw, st, node, fr):
        f = st.fact(b.t)
        names = {t[0] for t in f.types} if f.types is not None else None
        if f.const is not None:
            return self.str_method(f.const, name, args, kw, st, node, fr) if isinstance(f.const.v, str) else None
        if names == {"builtins.str"}:
            return self.str_method(b, name, args, kw, st, node, fr)
        pargs = tuple(a for a in args if not isinstance(a, tuple))
        isset = names is not None and names <= {"builtins.set", "builtins.frozenset"}
        isdict = names == {"builtins.dict"}
        islist = names == {"builtins.list"}
        if name in MUTATORS and (names is None or names & {"builtins.list", "builtins.dict", "builtins.set"}):
            self.emit("on_mutate", st, b, name, pargs, node, fr)
            if islist and name == "append":
                self.emit("on_elem", st, b, pargs[0], node, fr)
                self.emit("on_append", st, b, pargs[0], node, fr)
            f = st.fact(b.t)
            if self.linear_ints:
                st.ghost[("lenver", b)] = node._id
            st.facts[b.t] = f.with_(truth=True if name in ("append", "add", "insert") else None)
        if isset or (names is None and name in ("add", "discard")):
            if name == "add":
                st.drop_facts(lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "in" and t[2] == b
                              and st.fact(t).const == FALSE and frozenset((t[1], pargs[0])) not in self.distinct)
                st.facts[("in", pargs[0], b)] = Fact(const=TRUE)
                return [(st, NONE_)]
            if name in ("discard", "remove"):
                known = st.fact(("in", pargs[0], b)).const
                if name == "remove" and known != TRUE:
                    self.rx(st.fork(), "KeyError", node, fr, pargs[0])
                    if known == FALSE:
                        return []
                st.drop_facts(lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "in" and t[2] == b
                              and st.fact(t).const == TRUE and frozenset((t[1], pargs[0])) not in self.distinct)
                st.facts[("in", pargs[0], b)] = Fact(const=FALSE)
                return [(st, NONE_)]
            if name == "clear":
                self.drop_in(st, b)
                return [(st, NONE_)]
        if isdict or (names is None and name in ("items", "keys", "values")):
            if name in ("items", "keys", "values") and not args:
                return [(st, Part(Ext("builtins.dict." + name), (b,), ()))]
        if isdict or names is None:
            if name == "get" and 1 <= len(pargs) <= 2 and (isdict or True):
                if names is None:
                    # may be any object with a get method: result unknown
                    pass
                else:
                    dflt = pargs[1] if len(pargs) > 1 else NONE_
                    self.excs.append([])
                    hits = self.sym_index(b, pargs[0], st.fork(), node, fr)
                    lost = self.excs.pop()
                    return hits + [(y, dflt) for y, _ in lost]
        if isdict:
            if name in ("update", "clear", "pop", "setdefault"):
                self.drop_in(st, b)
                if isinstance(st.heap.get(b), DRec):
                    del st.heap[b]
                if name == "pop" and len(pargs) == 1:
                    self.rx(st.fork(), "KeyError", node, fr, pargs[0])
                if name in ("update", "clear"):
                    return [(st, NONE_)]
                return [(st.fork(), self.sym_item(b, pargs[0], st))] + (
                    [(st, pargs[1])] if len(pargs) > 1 else [])
            if name == "copy":
                return [(st, self.alloc(st, fr, node, DRec((), frozenset(), b.t)))]
        if islist:
            if name in ("append", "extend", "insert", "sort", "reverse", "clear", "remove"):
                if name == "remove":
                    self.rx(st.fork(), "ValueError", node, fr)
                return [(st, NONE_)]
            if name == "pop":
                if f.truth is not True:
                    self.rx(st.fork(), "IndexError", node, fr)
                return [(st, self.sym_item(b, pargs[0] if pargs else K(-1), st))]
            if name == "copy":
                return [(st, self.alloc(st, fr, node, LRec(org=b.t)))]
        return None

    def sym_item(self, b, i, st):
        t = ("i", b, i)
        ty = self.elem_types(st, b, i)
        if ty is not None:
            st.facts.setdefault(t, Fact(ty))
        return Sy(t)
