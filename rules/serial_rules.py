"""C09, C10: the serializer, interpreted on every kind of node in every position.

The texts in the tree are constants made of private-use characters, each standing for one arbitrary non-empty run of
characters without a line feed ("segment").  An operation whose result depends on what a segment contains is not
computed on the placeholder: tests split into both cases, and functions that may change characters mark the segment as
changed.
"""
import functools
import re
try:
    from re import _constants as rc, _parser as rp
except ImportError:     # older Pythons
    import sre_constants as rc
    import sre_parse as rp

from sa.interp import Interp
from sa.project import Project
from sa.state import DRec, LRec, SRec
from sa.strs import atoms_of
from sa.values import *  # noqa

from .ast_rules import AST, NONE_, Node, SER, T, Trees
from .report import Report

BASE, SIZE = 0xE000, 0x200
KINDS = ("text", "comment", "string", "id", "number", "junk")
FIRST, REST, ALT = 0xF0000, 0xF2000, 0xF4000
UNKNOWN = chr(0xF8000)
SPECIAL = "[.*}"
IDCH = frozenset("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")
NUMCH = frozenset("0123456789.-")


def base_of(c):
    o = ord(c)
    if o >= FIRST:
        o = (o - FIRST) % 0x2000 + BASE
    return o


def is_mark(c):
    o = ord(c)
    return BASE <= o < BASE + SIZE * len(KINDS) or FIRST <= o < FIRST + 0x6000


def is_alt(c):
    return ALT <= ord(c) < ALT + 0x2000


def kind(c):
    return KINDS[(base_of(c) - BASE) // SIZE]


def alter(s):
    return "".join(chr(ALT + base_of(c) - BASE) if is_mark(c) and kind(c) not in ("id", "number") else c for c in s)


def alter_all(s):
    return "".join(chr(ALT + base_of(c) - BASE) if is_mark(c) else c for c in s)


def marked(v):
    return isinstance(v, K) and isinstance(v.v, str) and any(is_mark(c) for c in v.v)


def may_hold(m, ch):
    """Whether the run of characters m can contain the character."""
    k = kind(m)
    if k == "id":
        return ch in IDCH
    if k == "number":
        return ch in NUMCH
    if k == "junk":
        return True
    if k == "text":
        return ch not in "\n{}"
    return ch != "\n"


def may_start(m, ch):
    if kind(m) == "id" and not ch.isalpha():
        return False
    return may_hold(m, ch) and not (kind(m) == "text" and ch in SPECIAL)


def may_equal(a, b):
    """Whether two strings with runs can be the same: False, True (they are) or None."""
    if a == b:
        return True
    if not any(is_mark(c) for c in a + b):
        return False
    for x, y in ((a, b), (b, a)):
        if not any(is_mark(c) for c in y):
            if len(y) < len(x):
                return False            # every run has at least one character
            if not is_mark(x[0]) and x[0] != y[0] or is_mark(x[0]) and not may_start(x[0], y[0]):
                return False
            if not is_mark(x[-1]) and x[-1] != y[-1]:
                return False
            if len(x) == 1 and not all(may_hold(x, c) for c in y):
                return False
            if all(kind(c) != "junk" for c in x if is_mark(c)) and x.count("\n") != y.count("\n"):
                return False
    return None


@functools.lru_cache(None)
def lf_only(pat, flags=0):
    """Whether what a pattern matches depends on the line feeds alone (and whole runs are consumed)."""
    try:
        p = rp.parse(pat, flags)
    except re.error:
        return False
    fl = p.state.flags
    if fl & re.VERBOSE:
        return False

    def one(op, av):
        """"lf", "rest" (all but LF), "all" or None for a single character."""
        if op is rc.LITERAL:
            return "lf" if av == 10 else None
        if op is rc.NOT_LITERAL:
            return "rest" if av == 10 else None
        if op is rc.ANY:
            return "all" if fl & re.DOTALL else "rest"
        if op is rc.IN:
            neg = bool(av) and av[0][0] is rc.NEGATE
            items = av[1:] if neg else av
            if all(o is rc.LITERAL and v == 10 for o, v in items):
                return "rest" if neg else "lf"
            cats = {v for o, v in items if o is rc.CATEGORY}
            for x, y in ((rc.CATEGORY_SPACE, rc.CATEGORY_NOT_SPACE), (rc.CATEGORY_WORD, rc.CATEGORY_NOT_WORD),
                         (rc.CATEGORY_DIGIT, rc.CATEGORY_NOT_DIGIT)):
                if x in cats and y in cats and not neg:
                    return "all"
        return None

    def ok(seq, look):
        for op, av in seq:
            k = one(op, av)
            if k == "lf" or k and look:
                continue
            if k or op in (rc.LITERAL, rc.NOT_LITERAL, rc.ANY, rc.IN):
                return False
            if op is rc.AT:
                if av in (rc.AT_BOUNDARY, rc.AT_NON_BOUNDARY):
                    return False
            elif op in (rc.ASSERT, rc.ASSERT_NOT):
                if len(av[1]) > 1 or not ok(av[1], True):
                    return False
            elif op is rc.SUBPATTERN:
                if not ok(av[3], look):
                    return False
            elif op is rc.BRANCH:
                if not all(ok(x, look) for x in av[1]):
                    return False
            elif op in (rc.MAX_REPEAT, getattr(rc, "POSSESSIVE_REPEAT", rc.MAX_REPEAT)):
                lo, hi, sub = av
                if len(sub) == 1 and one(*sub[0]) in ("rest", "all"):
                    if lo > 1 or hi is not rc.MAXREPEAT:
                        return False
                elif not ok(sub, look):
                    return False
            elif op is rc.MIN_REPEAT:
                if not ok(av[2], look):
                    return False
            else:
                return False
        return True
    return ok(p, False)


SAME_STR = {"__str__"}
CHANGERS = {"lower", "upper", "casefold", "capitalize", "title", "swapcase", "expandtabs", "translate", "split", "rsplit",
            "replace", "ljust", "rjust", "center", "zfill", "format_map"}
PRED = {"isspace", "isalnum", "isalpha", "isdigit", "isdecimal", "isnumeric", "isidentifier", "islower", "isupper",
        "isprintable", "isascii", "istitle"}
EDGE = {"strip": "lr", "lstrip": "l", "rstrip": "r"}
LOSSY = {"builtins.repr", "builtins.ascii", "builtins.float", "builtins.int", "json.dumps", "html.escape", "builtins.sorted",
         "builtins.reversed", "unicodedata.normalize", "textwrap.indent", "textwrap.dedent", "textwrap.fill", "re.escape",
         "decimal.Decimal", "textwrap.wrap", "shlex.quote", "urllib.parse.quote"}


class SerInterp(Interp):
    def fork2(self, st, t):
        return self.split_term(t, True, st)

    def str_method(self, b, name, args, kw, st, node, fr):
        vals = [b] + list(args) + [v for _, v in kw]
        if not any(marked(v) for v in vals) or name in ("format", "join"):
            return super().str_method(b, name, args, kw, st, node, fr)
        if not all(isinstance(v, K) or isinstance(v, Tup) and all(isinstance(x, K) for x in v.items) for v in vals):
            return super().str_method(b, name, args, kw, st, node, fr)
        a = [v.v if isinstance(v, K) else tuple(x.v for x in v.items) for v in args]
        k = {n: v.v for n, v in kw if isinstance(v, K)}
        s = b.v
        junk = any(is_mark(c) and kind(c) == "junk" for c in s)
        lf = bool(a) and isinstance(a[0], str) and a[0] and not a[0].strip("\n") and not junk
        if name in ("startswith", "endswith") and len(a) == 1 and not k:
            ps = a[0] if isinstance(a[0], tuple) else (a[0],)
            res = [self.edge(s, p, name == "startswith") for p in ps]
            if True in res:
                return [(st, K(True))]
            if None not in res:
                return [(st, K(False))]
            return self.fork2(st, ("m", name, b, tuple(args)))
        if name in PRED:
            return self.fork2(st, ("m", name, b, ()))
        if name in ("find", "rfind", "index", "rindex", "count"):
            if lf and name == "count":
                return super().str_method(b, name, args, kw, st, node, fr)
            if lf and name in ("find", "rfind") and a[0] not in s:
                return [(st, K(-1))]
            return [(st, Sy(("m", name, b, tuple(args))))] if lf or name == "count" else Interp.str_method(
                self, self.typed(st, ("str", b), "builtins.str"), name, args, kw, st, node, fr)
        try:
            r = getattr(s, name)(*a, **k)
        except AttributeError:
            return super().str_method(b, name, args, kw, st, node, fr)
        except Exception as e:
            self.rx(st, type(e).__name__, node, fr, K(str(e)))
            return []
        if name in SAME_STR or lf and name in ("split", "rsplit", "partition", "rpartition", "replace"):
            pass
        elif name in EDGE:
            cs = a[0] if a and isinstance(a[0], str) else None
            if isinstance(r, str) and r:
                if "l" in EDGE[name] and is_mark(r[0]) and self.strips(r[0], cs):
                    r = alter(r[0]) + r[1:]
                if "r" in EDGE[name] and is_mark(r[-1]) and self.strips(r[-1], cs):
                    r = r[:-1] + alter(r[-1])
        elif name in ("removeprefix", "removesuffix") and a and isinstance(a[0], str):
            if self.edge(s, a[0], name == "removeprefix") is None:
                r = alter_all(r)
        elif name == "splitlines":
            if junk:
                return super().str_method(self.typed(st, ("str", b), "builtins.str"), name, args, kw, st, node, fr)
            r = [alter(x) for x in r]
        elif name in ("replace", "split", "rsplit", "partition", "rpartition") and a and isinstance(a[0], str) and a[0]:
            hit = any(is_mark(c) and any(may_hold(c, x) for x in a[0]) for c in s)
            if hit:
                r = alter_all(r) if isinstance(r, str) else type(r)(alter_all(x) for x in r)
        elif name in CHANGERS:
            r = alter_all(r) if isinstance(r, str) else [alter(x) for x in r]
        else:
            return super().str_method(self.typed(st, ("str", b), "builtins.str"), name, args, kw, st, node, fr)
        return self.native_value(r, st, node, fr)

    def strips(self, m, cs):
        return any(may_hold(m, c) for c in (cs if cs is not None else " \t\x0b\x0c\r\x85\u2028"))

    def edge(self, s, p, start):
        """Does s start (end) with p: True, False or None."""
        if not p:
            return True
        x, y = (s, p) if start else (s[::-1], p[::-1])
        for c, d in zip(x, y):
            if c == d:
                continue
            if not is_mark(c):
                return False
            ok = may_start(c, d) if start else may_hold(c, d)
            return None if ok else False
        return len(x) >= len(y)

    def cmp_rel(self, o, a, b, st, node, fr, ln=None, rn=None):
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str) and (marked(a) or marked(b)):
            if o in ("Eq", "NotEq"):
                r = may_equal(a.v, b.v)
                if r is not None:
                    return [(st, K(r == (o == "Eq")))]
                if repr(b) < repr(a):
                    a, b = b, a
                return self.split_term(("eq", a, b), o == "Eq", st)
            return self.split_term(("cmp", o, a, b), True, st)
        return super().cmp_rel(o, a, b, st, node, fr, ln, rn)

    def cmp_in(self, pos, a, b, st, node, fr, ln=None):
        if isinstance(b, K) and isinstance(b.v, str) and isinstance(a, K) and isinstance(a.v, str) and (marked(a) or marked(b)):
            if a.v in b.v:
                return [(st, K(pos))]
            if marked(b):
                can = len(a.v) > 1 or any(is_mark(c) and may_hold(c, a.v) for c in b.v)
                if len(a.v) > 1 and not marked(a):
                    can = any(is_mark(c) and any(may_hold(c, x) for x in a.v) for c in b.v)
            else:
                can = None in [may_equal(a.v, x) for x in b.v] if len(a.v) == 1 else True
            return self.split_term(("in", a, b), pos, st) if can else [(st, K(not pos))]
        if marked(a):
            items = self.seq_items(b, st)
            r = self.rec(st, b.a) if isinstance(b, Obj) else None
            if isinstance(r, SRec) and r.rest is None and r.org is None:
                items = sorted(r.items, key=repr)
            elif isinstance(r, DRec) and r.rest is None and r.org is None:
                items = [k for k, _ in r.items]
            elif isinstance(b, K) and isinstance(b.v, (tuple, frozenset)):
                items = [K(x) for x in sorted(b.v, key=repr)]
            if items is not None and all(isinstance(x, K) for x in items):
                res = [may_equal(a.v, x.v) if isinstance(x.v, str) else False for x in items]
                if True in res:
                    return [(st, K(pos))]
                if None not in res:
                    return [(st, K(not pos))]
                return self.split_term(("in", a, K(tuple(x.v for x in items))), pos, st)
        return super().cmp_in(pos, a, b, st, node, fr, ln)

    def getitem(self, b, i, st, node, fr):
        if marked(b) and isinstance(i, K) and type(i.v) is int:
            s = b.v
            if i.v >= 0 and not any(is_mark(c) for c in s[:i.v + 1]) and i.v < len(s):
                return [(st, K(s[i.v]))]
            if i.v < 0 and -i.v <= len(s) and not any(is_mark(c) for c in s[i.v:]):
                return [(st, K(s[i.v]))]
            if i.v == 0:
                return [(st, K(chr(FIRST + base_of(s[0]) - BASE)))]
            return [(st, K(alter_all(s[i.v] if -len(s) <= i.v < len(s) else s[-1])))]
        return super().getitem(b, i, st, node, fr)

    def getslice(self, b, args, st, node, fr):
        if marked(b) and all(isinstance(x, K) for x in args) and args[2].v in (None, 1):
            s = b.v
            lo, hi = args[0].v or 0, args[1].v
            if hi is not None and hi > 0 and lo == 0 and is_mark(s[0]) and hi == 1:
                return [(st, K(chr(FIRST + base_of(s[0]) - BASE)))]
            if hi is None and lo == 1 and is_mark(s[0]):
                return [(st, K(chr(REST + base_of(s[0]) - BASE) + s[1:]))]
            cut = (s[:lo] if lo >= 0 else s[lo:]) + ("" if hi is None else s[hi:] if hi < 0 else s[:hi])
            r = s[lo:hi]
            return [(st, K(alter_all(r) if any(is_mark(c) for c in cut) else r))]
        return super().getslice(b, args, st, node, fr)

    def b_len(self, args, kw, st, node, fr):
        if args and marked(args[0]):
            v = self.typed(st, ("len", args[0]), "builtins.int")
            f = st.fact(v.t)
            st.facts[v.t] = f.with_(truth=True, ne=f.ne | {K(0)})
            return [(st, v)]
        return super().b_len(args, kw, st, node, fr)

    def call_ext(self, q, args, kw, st, node, fr):
        if q in LOSSY and any(marked(a) for a in args):
            s = "".join(a.v for a in args if marked(a))
            return [(st, K(alter_all(s) if q in ("builtins.float", "builtins.int", "decimal.Decimal") else alter(s)))]
        return super().call_ext(q, args, kw, st, node, fr)

    def re_call(self, name, args, kw, st, node, fr):
        clean = [a for a in args if not isinstance(a, tuple)]
        if name == "escape" and clean and marked(clean[0]):
            return [(st, K(alter_all(clean[0].v)))]
        if not all(isinstance(a, K) for a in clean):
            return super().re_call(name, args, kw, st, node, fr)
        k = dict(kw)
        pat = clean[0].v if isinstance(clean[0], K) else None
        flags = k.get("flags", K(0))
        fl = flags.v if isinstance(flags, K) and isinstance(flags.v, int) else None
        junk = any(is_mark(c) and kind(c) == "junk" for a in clean if marked(a) for c in a.v)
        exact = isinstance(pat, str) and fl is not None and not junk and lf_only(pat, fl)
        if name in ("sub", "subn") and len(clean) == 3 and isinstance(clean[1], K) and isinstance(clean[1].v, str) and \
                isinstance(clean[2], K) and isinstance(pat, str) and fl is not None and set(k) <= {"flags"}:
            r = re.sub(pat, clean[1].v, clean[2].v, flags=fl)
            return [(st, K(r if exact else alter_all(r)))]
        if name == "split" and len(clean) == 2 and isinstance(pat, str) and fl is not None and set(k) <= {"flags"}:
            r = re.split(pat, clean[1].v, flags=fl)
            return self.native_value([x if exact or x is None else alter_all(x) for x in r], st, node, fr)
        if name in ("search", "match", "fullmatch") and exact and len(clean) == 2:
            m = getattr(re, name)(pat, clean[1].v, fl)
            t = ("re", name, K(pat), clean[1])
            if m is None:
                return [(st, NONE_)]
            v = self.typed(st, t, "re.Match")
            st.facts[v.t] = st.fact(v.t).with_(truth=True)
            return [(st, v)]
        return super().re_call(name, args, kw, st, node, fr)


# ---------------------------------------------------------------------- trees
class Gen_:
    """Trees with marked texts."""

    def __init__(self):
        self.n = {}

    def m(self, k):
        self.n[k] = self.n.get(k, 0) + 1
        return chr(BASE + SIZE * KINDS.index(k) + self.n[k] % SIZE)

    def id(self):
        return T("Identifier", name=K(self.m("id")), span=NONE_)

    def num(self):
        return T("NumberLiteral", value=K(self.m("number")), span=NONE_)

    def str(self):
        return T("StringLiteral", value=K(self.m("string")), span=NONE_)

    def text(self, form="s"):
        return T("TextElement", value=K("".join(self.m("text") if c == "s" else c for c in form)), span=NONE_)

    def pl(self, e):
        return T("Placeable", expression=e, span=NONE_)

    def pat(self, *els):
        return T("Pattern", elements=[self.text(e) if isinstance(e, str) else e for e in els], span=NONE_)

    def named(self, v=None):
        return T("NamedArgument", name=self.id(), value=v or self.num(), span=NONE_)

    def args(self, pos=(), named=()):
        return T("CallArguments", positional=list(pos), named=list(named), span=NONE_)

    def var(self):
        return T("VariableReference", id=self.id(), span=NONE_)

    def msg(self, attr=False):
        return T("MessageReference", id=self.id(), attribute=self.id() if attr else NONE_, span=NONE_)

    def term(self, attr=False, args=None):
        return T("TermReference", id=self.id(), attribute=self.id() if attr else NONE_, arguments=args or NONE_, span=NONE_)

    def func(self, args=None):
        return T("FunctionReference", id=self.id(), arguments=args or self.args(), span=NONE_)

    def inline(self):
        """Every kind of inline expression."""
        yield self.str()
        yield T("StringLiteral", value=K(""), span=NONE_)
        yield self.num()
        yield self.var()
        for a in (False, True):
            yield self.msg(a)
            yield self.term(a)
            yield self.term(a, self.args())
            yield self.term(a, self.args([], [self.named(), self.named(self.str())]))
        yield self.term(False, self.args([self.var()], [self.named()]))
        yield self.func()
        yield self.func(self.args([self.var()]))
        yield self.func(self.args([], [self.named(self.str())]))
        yield self.func(self.args([self.str(), self.num(), self.var()], [self.named(), self.named(self.str()), self.named()]))
        yield self.pl(self.var())

    def nested(self):
        for e in self.inline():
            yield self.pl(e)
        for e in self.inline():
            yield self.func(self.args([e], []))
        for e in self.inline():
            yield self.func(self.args([self.var(), e], [self.named()]))
        yield self.pl(self.pl(self.pl(self.str())))
        yield self.pl(self.select())

    def variant(self, default=False, value=None, key=None):
        return T("Variant", key=key or self.id(), value=value or self.pat("s"), default=K(default), span=NONE_)

    def select(self, sel=None, variants=None):
        return T("SelectExpression", selector=sel or self.var(),
                 variants=variants or [self.variant(True)], span=NONE_)

    def selects(self):
        for e in self.inline():
            yield self.select(e)
        for e in self.inline():
            if e.cls != "Placeable":
                yield self.select(sel=self.func(self.args([e])))
        for n in (2, 3):
            for d in range(n):
                yield self.select(None, [self.variant(i == d, None, self.num() if i % 2 else None) for i in range(n)])
        yield self.select(None, [self.variant(True, None, self.num())])
        for p in self.patterns(False):
            yield self.select(None, [self.variant(False, p), self.variant(True)])
        for p in self.patterns(False):
            yield self.select(None, [self.variant(False), self.variant(True, p)])
        inner = lambda: self.pl(self.select(None, [self.variant(False), self.variant(True, self.pat("s\ns"))]))   # noqa: E731
        yield self.select(None, [self.variant(True, self.pat(inner()))])
        yield self.select(None, [self.variant(False, self.pat("s", inner(), "s\ns")), self.variant(True)])

    FORMS = ("s", "s\ns", "s\n\ns", "s\ns\ns", "s\n\n\ns\ns", "[s", ".s", "*s", "[s\ns", ".s\ns", "*s\n\ns", "s\n", "s\n\n")

    def patterns(self, deep=True):
        for f in self.FORMS[:-2]:
            yield self.pat(f)
        for f in ("s", "s\ns", "s\n", "s\n\n", "[s", ".s\n"):
            yield self.pat(f, self.pl(self.var()))
            yield self.pat(f, self.pl(self.var()), "s")
        for f in ("s", "s\ns", "\ns", "\n\ns\ns", "[s", "\n[s"[1:]):
            yield self.pat(self.pl(self.var()), f)
        yield self.pat(self.pl(self.var()), self.pl(self.str()))
        yield self.pat(self.pl(self.var()), "\n", self.pl(self.str()))
        yield self.pat("s", self.pl(self.num()), "s\ns", self.pl(self.term()), "\ns")
        if deep:
            for e in self.inline():
                yield self.pat(self.pl(e))
            for e in self.nested():
                yield self.pat("s", self.pl(e))
            for e in self.selects():
                yield self.pat(self.pl(e))
            for f in ("s", "s\ns", "[s", "s\n"):
                yield self.pat(f, self.pl(self.select()))
                yield self.pat(self.pl(self.select()), f)
                yield self.pat(f, self.pl(self.select()), "s\ns")
            yield self.pat(self.pl(self.select()), self.pl(self.select()))

    def attr(self, p=None):
        return T("Attribute", id=self.id(), value=p or self.pat("s"), span=NONE_)

    def comment(self, cls="Comment", form="s"):
        return T(cls, content=K("".join(self.m("comment") if c == "s" else c for c in form)) if form is not None else NONE_,
                 span=NONE_)

    CFORMS = ("s", "s\ns", "s\n\ns", "", None, "\ns", "s\n", "\n", "s\ns\ns")

    def message(self, value=NONE_, attrs=(), comment=NONE_):
        return T("Message", id=self.id(), value=value, attributes=list(attrs), comment=comment, span=NONE_)

    def tterm(self, value=None, attrs=(), comment=NONE_):
        return T("Term", id=self.id(), value=value or self.pat("s"), attributes=list(attrs), comment=comment, span=NONE_)

    def junk(self, form="s\n"):
        return T("Junk", content=K("".join(self.m("junk") if c == "s" else c for c in form)) if form is not None else NONE_,
                 annotations=[], span=NONE_)

    def entries(self):
        for p in self.patterns():
            yield self.message(p)
        for p in self.patterns():
            yield self.message(NONE_, [self.attr(p)])
        for p in self.patterns(False):
            yield self.tterm(p)
        for p in self.patterns(False):
            yield self.tterm(None, [self.attr(p), self.attr()])
        for n in (1, 2, 3):
            for v in (NONE_, self.pat("s"), self.pat("s\ns")):
                yield self.message(v, [self.attr() for _ in range(n)])
        yield self.message()
        yield self.tterm(None, [self.attr(), self.attr()])
        for f in self.CFORMS:
            yield self.message(self.pat("s"), [], self.comment(form=f))
            yield self.message(NONE_, [self.attr()], self.comment(form=f))
            yield self.tterm(None, [self.attr()], self.comment(form=f))
            for c in ("Comment", "GroupComment", "ResourceComment"):
                yield self.comment(c, f)
        yield self.junk()
        yield self.junk("s")
        yield self.junk(None)
        yield self.junk("")

    def kinds(self):
        return [lambda: self.message(self.pat("s")), lambda: self.message(NONE_, [self.attr()], self.comment()),
                lambda: self.tterm(), lambda: self.tterm(None, [], self.comment()), lambda: self.comment(),
                lambda: self.comment("GroupComment"), lambda: self.comment("ResourceComment"), lambda: self.junk(),
                lambda: self.comment(form=None)]

    def resources(self, thorough):
        def res(*b):
            return T("Resource", body=list(b), span=NONE_)
        yield res()
        ks = self.kinds()
        for a in ks:
            yield res(a())
            for b in ks:
                yield res(a(), b())
                for c in (ks if thorough else ks[4:5] + ks[7:8]):
                    yield res(a(), b(), c())


# ---------------------------------------------------------------------- what the output must look like
class Want:
    """Templates: tokens matched against the output."""

    def __init__(self):
        self.n = 0

    def entry(self, e):
        if e.cls in ("Message", "Term"):
            c = e.f["comment"]
            out = [] if c == NONE_ else self.comment(c)
            out += [("lit", "-")] if e.cls == "Term" else []
            out += [("lit", e.f["id"].f["name"].v), ("sp",), ("lit", "=")]
            if e.f["value"] != NONE_:
                out += self.pattern(e.f["value"])
            for a in e.f["attributes"]:
                out += [("ws",), ("lf",), ("ws",), ("lit", "."), ("lit", a.f["id"].f["name"].v), ("sp",), ("lit", "=")]
                out += self.pattern(a.f["value"])
            return out + [("sp",), ("lf",)]
        if e.cls == "Junk":
            return [("lit", e.f["content"].v or "")]
        return self.comment(e)

    def comment(self, c):
        p = {"Comment": "#", "GroupComment": "##", "ResourceComment": "###"}[c.cls]
        out = []
        for line in (c.f["content"].v or "").split("\n"):
            out += [("lit", p)] + ([("lit", " " + line)] if line else [("sp",)]) + [("lf",)]
        return out

    def resource(self, r, junk):
        out = [("ws",)]
        body = [e for e in r.f["body"] if junk or e.cls != "Junk"]
        for i, e in enumerate(body):
            out += self.entry(e)
            nxt = body[i + 1].cls if i + 1 < len(body) else None
            if nxt and "Comment" in e.cls and (nxt == e.cls or e.cls == "Comment" and nxt in ("Message", "Term")):
                out += [("lf",)]
            elif nxt and e.cls == "Comment" and "Comment" not in nxt and nxt != "Junk":
                out += [("lf",)]
            out += [("lfs",)]
        return out

    def pattern(self, p):
        self.n += 1
        k = self.n
        els = p.f["elements"]
        first = els[0].f["value"].v[:1] if els and els[0].cls == "TextElement" else ""
        fixed = first in ("[", ".", "*") and first
        out = [("sp",)] if fixed else [("alt", [("sp",)], [("ws",), ("lf",), ("ind", k)])]
        flat = []           # text characters and placeables
        for e in els:
            flat += list(e.f["value"].v) if e.cls == "TextElement" else [e]
        for i, x in enumerate(flat):
            if isinstance(x, T):
                out += self.placeable(x)
            elif x == "\n":
                blank = i + 1 == len(flat) or flat[i + 1] == "\n"
                out += [("lf",), ("sp",) if blank else ("ind", k)]
            else:
                out.append(("lit", x))
        return out

    def placeable(self, p):
        return [("lit", "{"), ("ws",)] + self.expr(p.f["expression"]) + [("ws",), ("lit", "}")]

    def expr(self, e):
        f = e.f
        if e.cls == "Placeable":
            return self.placeable(e)
        if e.cls == "StringLiteral":
            return [("lit", '"%s"' % f["value"].v)]
        if e.cls == "NumberLiteral":
            return [("lit", f["value"].v)]
        if e.cls == "VariableReference":
            return [("lit", "$" + f["id"].f["name"].v)]
        if e.cls in ("MessageReference", "TermReference"):
            s = ("-" if e.cls == "TermReference" else "") + f["id"].f["name"].v
            if f["attribute"] != NONE_:
                s += "." + f["attribute"].f["name"].v
            return [("lit", s)] + (self.args(f["arguments"]) if f.get("arguments", NONE_) != NONE_ else [])
        if e.cls == "FunctionReference":
            return [("lit", f["id"].f["name"].v)] + self.args(f["arguments"])
        out = self.expr(f["selector"]) + [("ws",), ("lit", "->")]
        for v in f["variants"]:
            out += [("sp",), ("lf",), ("ws",)] + ([("lit", "*")] if v.f["default"].v else [])
            k = v.f["key"]
            out += [("lit", "["), ("ws",), ("lit", (k.f["name"] if k.cls == "Identifier" else k.f["value"]).v), ("ws",), ("lit", "]")]
            out += self.pattern(v.f["value"])
        return out + [("ws",), ("lf",)]

    def args(self, a):
        out = [("ws",), ("lit", "("), ("ws",)]
        items = [self.expr(x) for x in a.f["positional"]]
        items += [[("lit", x.f["name"].f["name"].v), ("ws",), ("lit", ":"), ("ws",)] + self.expr(x.f["value"]) for x in a.f["named"]]
        for i, x in enumerate(items):
            out += ([("ws",), ("lit", ","), ("ws",)] if i else []) + x
        if items:
            out += [("ws",), ("alt", [("lit", ",")], [])]
        return out + [("ws",), ("lit", ")")]


def match(tokens, s):
    """None when the output has the form, else the furthest place reached."""
    best = [0, None]
    budget = [200000]

    def go(ts, pos, env):
        while True:
            budget[0] -= 1
            if budget[0] < 0:
                return False
            if pos > best[0] or best[1] is None:
                best[0], best[1] = max(pos, best[0]), ts
            if ts is None:
                return pos == len(s)
            (t, ts2) = ts
            k = t[0]
            if k == "lit":
                if not s.startswith(t[1], pos):
                    return False
                pos += len(t[1])
            elif k == "lf":
                if pos >= len(s) or s[pos] != "\n":
                    return False
                pos += 1
            elif k in ("ws", "sp", "lfs"):
                cs = {"ws": " \n", "sp": " ", "lfs": "\n"}[k]
                e = pos
                while e < len(s) and s[e] in cs:
                    e += 1
                for q in range(e, pos, -1):
                    if go(ts2, q, env):
                        return True
            elif k == "ind":
                e = pos
                while e < len(s) and s[e] == " ":
                    e += 1
                n = e - pos
                if t[1] in env:
                    if n != env[t[1]]:
                        return False
                else:
                    if n < 1:
                        return False
                    env = {**env, t[1]: n}
                pos = e
            elif k == "alt":
                for alt in t[1:]:
                    if go(chain(alt, ts2), pos, env):
                        return True
                return False
            ts = ts2
    if go(chain(tokens, None), 0, {}):
        return None
    if budget[0] < 0:
        return "?"
    return best


def chain(tokens, rest):
    for t in reversed(tokens):
        rest = (t, rest)
    return rest


def show(s):
    """Readable output: runs as <kind>."""
    return "".join("<%s%s>" % ("changed " if is_alt(c) else "", kind(c)) if is_mark(c) else "<?>" if c == UNKNOWN else c for c in s)


def explain(best, s):
    t = best[1][0] if best[1] else None
    want = {"lit": "%r" % show(t[1]) if t and t[0] == "lit" else "", "lf": "a line feed", "ind": "indentation", "ws": "a blank",
            "sp": "spaces", "lfs": "line feeds", "alt": "a pattern"}.get(t[0], "") if t else "the end"
    return "after %r the output has %r where %s belongs" % (show(s[max(0, best[0] - 24):best[0]]), show(s[best[0]:best[0] + 16]), want)


# ---------------------------------------------------------------------- running the serializer
def result_text(TR, s, v):
    if isinstance(v, K) and isinstance(v.v, str):
        x = v.v
    elif is_str(v):
        x = "".join(a[1] if a[0] == "l" else UNKNOWN for a in atoms_of(v, s))
    else:
        return None
    # first character and rest of the same run put together again
    for c in set(x):
        if FIRST <= ord(c) < REST:
            b = ord(c) - FIRST
            x = x.replace(c + chr(REST + b), chr(BASE + b))
    return x


def serial_runs(TR, t, judge, con):
    """judge(output) for every outcome of serializing the tree."""
    it = TR.it

    def go(st, fr):
        for s, o in TR.build(t, st, fr, "t"):
            for junk in ((False, True) if t.cls == "Resource" else (False,)):
                z = s.fork()
                if t.cls == "Resource":
                    kw = [("with_junk", K(True))] if junk else []
                    outs = TR.run(z, lambda z: it.call(it.find("fluent.syntax:serialize"), [o], kw, z, Node("ser"), fr))
                else:
                    outs = TR.run(z, lambda z: [w for y, v in it.call(it.find(SER + ":FluentSerializer"), [], [], z, Node("s"), fr)
                                                for w in it.callmethod(v, "serialize_entry", [o], y, Node("ser"), fr)])
                c = con + (" with junk" if junk else "")
                if not outs:
                    judge(c, junk, None, "no outcome")
                for y, how, v in outs:
                    if how == "raise":
                        judge(c, junk, None, "raises " + it.show_exc(y, v))
                        continue
                    judge(c, junk, result_text(TR, y, v), None)
    TR.session(go)


def c09(tier):
    r = Report("C09")
    r.rule("complete", "the output holds every part of the entry, in order, between the delimiters of the Fluent syntax")
    r.rule("resource", "every entry of a resource is written in order, junk only on request, comments kept apart from what follows")
    TR = Trees(r, interp=SerInterp)
    g = Gen_()
    for rule, ts in (("complete", g.entries()), ("resource", g.resources(tier == "thorough"))):
        for i, t in enumerate(ts):
            def judge(con, junk, out, err):
                if err:
                    TR.chk(False, rule, con, "serializing " + err, und=err == "no outcome")
                    return
                if out is None:
                    TR.chk(False, rule, con, "the output is not known", und=True)
                    return
                out = "".join(chr(base_of(c)) if is_alt(c) else c for c in out)
                w = Want()
                b = match(w.resource(t, junk) if t.cls == "Resource" else [("lfs",)] + w.entry(t) + [("lfs",)], out)
                TR.chk(b is None, rule, con, "" if b is None else "?" if b == "?" else explain(b, out), und=b == "?" or UNKNOWN in out)
            serial_runs(TR, t, judge, "%s %s" % (label(t), "#%d" % i))
    finish(r, TR)
    return r


def label(t):
    if t.cls == "Resource":
        return "[%s]" % ", ".join(x.cls for x in t.f["body"])
    return "%s %s" % (t.cls, short(t))


def short(t):
    """Compact description of a tree."""
    if isinstance(t, list):
        return "[%s]" % ", ".join(short(x) for x in t)
    if not isinstance(t, T):
        return repr(show(t.v)) if isinstance(t.v, str) else str(t.v)
    n = {"Pattern": "", "TextElement": "text", "Placeable": "", "Identifier": None, "CallArguments": ""}.get(t.cls, t.cls)
    if t.cls == "Identifier":
        return "id"
    if t.cls == "Pattern":
        return "(%s)" % " ".join(short(x) for x in t.f["elements"])
    if t.cls == "TextElement":
        return show(t.f["value"].v).replace("<text>", "x").replace("\n", "\\n") or "''"
    if t.cls == "Placeable":
        return "{%s}" % short(t.f["expression"])
    fs = ["%s" % short(v) for k, v in t.f.items() if k != "span" and v != NONE_ and not (isinstance(v, list) and not v)
          and not (isinstance(v, T) and v.cls == "Identifier")]
    return "%s(%s)" % (n.replace("Reference", "").replace("Expression", "").replace("Literal", ""), ", ".join(fs))


def finish(r, TR):
    from .ast_rules import wrap
    wrap(r, TR)
    r.assumptions[-1] = ("every kind of node in every position, lists of up to three items, select expressions nested twice; each "
                         "text is a sequence of arbitrary non-empty runs without line feed, separated by line feeds")


# ---------------------------------------------------------------------- C11
def c11_serial(r):
    """Serializing leaves the tree as it was."""
    import itertools
    TR = Trees(r, interp=SerInterp)
    it = TR.it
    g = Gen_()
    for i, t in enumerate(itertools.chain(g.entries(), g.resources(False))):
        con = "serializing %s #%d" % (label(t), i)

        def go(st, fr):
            for s, o in TR.build(t, st, fr, "t"):
                snap = TR.snapshot(s, o)
                for junk in ((False, True) if t.cls == "Resource" else (False,)):
                    for y, v in it.call(it.find(SER + ":FluentSerializer"), [], [("with_junk", K(junk))], s.fork(), Node("s"), fr):
                        y.frames[fr.fid]["ser"] = v
                        name = "serialize" if t.cls == "Resource" else "serialize_entry"
                        for z, how, w in TR.run(y, lambda y: it.callmethod(v, name, [o], y, Node("ser"), fr)):
                            d = TR.same(z, snap)
                            TR.chk(d is None, "unchanged", con, "serializing: %s" % d)
        TR.session(go)
    return TR


def c11_bundle(r):
    """Adding a resource to a bundle, looking its messages up and formatting them leaves the tree as it was."""
    TR = Trees(r, interp=SerInterp)
    it = TR.it
    g = Gen_()
    for i, t in enumerate(g.entries()):
        if t.cls not in ("Message", "Term"):
            continue
        body = [t]
        msg = t
        if t.cls == "Term":
            ref = T("TermReference", id=t.f["id"], attribute=NONE_, arguments=g.args([], [g.named()]), span=NONE_)
            els = [g.pl(ref)]
            for a in t.f["attributes"]:
                els.append(g.pl(T("TermReference", id=t.f["id"], attribute=a.f["id"], arguments=NONE_, span=NONE_)))
            msg = g.message(T("Pattern", elements=els, span=NONE_))
            body.append(msg)
        bundle_case(TR, T("Resource", body=body, span=NONE_), msg, "%s #%d" % (label(t), i))
    return TR


def bundle_case(TR, res, msg, con):
    it = TR.it
    name = msg.f["id"].f["name"]

    def same(s, snap, what):
        d = TR.same(s, snap)
        TR.chk(d is None, "unchanged", "%s %s" % (what, con), "%s: %s" % (what, d))

    def go(st, fr):
        for s, o in TR.build(res, st, fr, "t"):
            snap = TR.snapshot(s, o)
            s, lv = TR.build([K("en")], s, fr, "loc")[0]
            for y, how, b in TR.run(s, lambda s: it.call(it.find("fluent.runtime.bundle:FluentBundle"), [lv], [], s, Node("b"), fr)):
                if how != "ok":
                    continue
                y.frames[fr.fid]["b"] = b
                for z, how, _ in TR.run(y, lambda y: it.callmethod(b, "add_resource", [o], y, Node("add"), fr)):
                    same(z, snap, "adding to a bundle")
                    if how == "ok":
                        lookup(z, snap, b, fr)

    def lookup(z, snap, b, fr):
        for q, how, m in TR.run(z, lambda z: it.callmethod(b, "get_message", [name], z, Node("get"), fr)):
            same(q, snap, "looking up")
            if how != "ok":
                continue
            q.frames[fr.fid]["m"] = m
            pats = [(q, v) for q, how, v in TR.run(q, lambda q: it.getattr_(m, "value", q, Node("va"), fr)) if how == "ok" and v != NONE_]
            if msg.f["attributes"]:
                n = msg.f["attributes"][0].f["id"].f["name"]
                for q1, how, d in TR.run(q.fork(), lambda q: it.getattr_(m, "attributes", q, Node("at"), fr)):
                    if how == "ok":
                        pats += [(x, v) for x, how, v in TR.run(q1, lambda x: it.getitem(d, n, x, Node("ai"), fr)) if how == "ok"]
            for q1, v in pats:
                for q2, how, w in TR.run(q1.fork(), lambda x: it.callmethod(b, "format_pattern", [v], x, Node("fm"), fr)):
                    same(q2, snap, "formatting")
    TR.session(go)


# ---------------------------------------------------------------------- C10
def leaves(t, out):
    for k, v in t.f.items():
        if isinstance(v, T):
            leaves(v, out)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, T):
                    leaves(x, out)
        elif isinstance(v, K) and isinstance(v.v, str) and v.v:
            out.append((t.cls, v.v))
    return out


def text_ok(cls, v, out):
    """None when the text occurs in the output, changed only by indentation after line feeds."""
    for c in v:
        if is_mark(c) and c not in out:
            if chr(ALT + ord(c) - BASE) in out:
                return "part of the %s may be changed" % kind(c)
            return "part of the %s is missing" % kind(c)
    for c in v:
        if is_mark(c) and (out.count(c) > 1 or chr(ALT + ord(c) - BASE) in out):
            return "part of the %s occurs more than once" % kind(c)
    runs = [c for c in v if is_mark(c)]
    if cls == "TextElement" or cls == "StringLiteral":
        pat = "".join("\n(?:[ ]*)" if c == "\n" else re.escape(c) for c in v)
        m = [x for x in re.finditer(pat, out)] if runs else [True]
        if not m:
            return "the text %r is not written as it is (apart from indentation after line feeds)" % show(v)
    elif "Comment" in cls:
        lines = v.split("\n")
        ls = out.split("\n")
        for a in lines:
            if a and not any(re.fullmatch("#+ " + re.escape(a), x) for x in ls):
                return "the comment line %r is not written as it is" % show(a)
    elif runs and v not in out:
        return "%r is not written as it is" % show(v)
    return None


def even(t, out):
    """Lines of one pattern get the same indentation."""
    if t.cls == "Pattern":
        ind = set()
        for e in t.f["elements"]:
            if e.cls != "TextElement":
                        continue
            v = e.f["value"].v
            for x, y in zip(v, v[1:]):
                if x == "\n" and is_mark(y):
                    m = re.search("\n( *)" + re.escape(y), out)
                    if m:
                        ind.add(len(m.group(1)))
        if len(ind) > 1:
            return "lines of one pattern are indented by %s" % " and ".join(map(str, sorted(ind)))
        if ind == {0}:
            return "a continued line is not indented"
    for v in t.f.values():
        for x in (v if isinstance(v, list) else [v]):
            if isinstance(x, T):
                d = even(x, out)
                if d:
                    return d
    return None


def c10(tier):
    r = Report("C10")
    r.rule("unchanged-text", "each text of the tree is in the output once, character for character, with nothing but indentation put in, after line feeds")
    r.rule("even-indent", "the lines of one pattern are indented alike")
    TR = Trees(r, interp=SerInterp)
    g = Gen_()
    import itertools
    for i, t in enumerate(itertools.chain(g.entries(), g.resources(False))):
        def judge(con, junk, out, err):
            if err or out is None:
                TR.chk(False, "unchanged-text", con, err or "", und=True)
                return
            d = None
            for cls, v in leaves(t, []):
                if cls == "Junk" and not junk and t.cls == "Resource":
                    continue
                d = d or text_ok(cls, v, out)
            missing = d is not None and d.endswith("is missing")
            TR.chk(d is None, "unchanged-text", con, str(d) + ": " + show(out[:80]), und=UNKNOWN in out and missing)
            d = even(t, out)
            TR.chk(d is None, "even-indent", con, str(d))
        serial_runs(TR, t, judge, "%s %s" % (label(t), "#%d" % i))
    finish(r, TR)
    return r
