"""C03-C08: what the parser builds, decided at the constructions and insertions of AST nodes."""
import ast as A

from sa.charset import CS, EOFSET, LF, CRX
from sa.linear import lin
from sa.state import DRec, Inst, LRec, len_sym
from sa.strs import atoms_of
from sa.values import *  # noqa

from .automata import included, nfa_included, regex
from .parser_common import Obs, RUNS, as_l, fn_name, int_fields, run_all, stream_of
from .report import snippet, where

AST = "fluent.syntax.ast"


def cs(*parts):
    iv = []
    for p in parts:
        if len(p) == 3 and p[1] == "-":
            iv.append((ord(p[0]), ord(p[2])))
        else:
            iv += [(ord(c), ord(c)) for c in p]
    out = CS(())
    for a, b in iv:
        out = out | CS(((a, b),))
    return out


DIGIT = cs("0-9")
LETTER = cs("a-z", "A-Z")
UPPER = cs("A-Z")
IDCH = LETTER | DIGIT | cs("_", "-")
NOT_ID = None


def inst(st, v):
    r = st.heap.get(v.a) if isinstance(v, Obj) else None
    return r if isinstance(r, Inst) and r.ci is not None else None


def index_of(st):
    for a, r in stream_of(st):
        e = [as_l(r.f[n]) for n in int_fields(r) if "offset" not in n and "peek" not in n]
        return e[0] if e else None
    return None


def is_node(r):
    return r is not None and r.ci.mod.name == AST and r.ci.name not in ("Span", "Annotation")


def span_of(st, r):
    """(start, end, record) of a node's span."""
    s = inst(st, r.f.get("span", NONE_))
    if s is None or s.many:
        return None
    a, b = as_l(s.f.get("start", NONE_)), as_l(s.f.get("end", NONE_))
    return (a, b) if a is not None and b is not None else None


def children(st, r):
    for n, v in r.f.items():
        if n.startswith("%") or n == "span":
            continue
        c = inst(st, v)
        if c is not None:
            yield n, v, c
        elif isinstance(v, Obj) and isinstance(st.heap.get(v.a), LRec):
            for e in st.heap[v.a].elems():
                c = inst(st, e)
                if c is not None:
                    yield n, e, c


def fname(f):
    return getattr(f.node, "name", "<lambda>")


class NodeObs(Obs):
    def loop_ghost(self, it, node, fr, st):
        # keeps the cursor's relation to its position at the entry of the production
        if isinstance(node, (A.While, A.For)):
            return None
        e = index_of(st)
        loc = tuple((n, as_l(v)) for n, v in sorted(st.frames.get(fr.fid, {}).items())
                    if isinstance(v, I) and not n.startswith("%"))
        return None if e is None else (("cursor index", e),) + loc

    def site(self, ci, fr):
        return "%s in %s" % (ci.name, fn_name(fr))

    def built(self, it, st, o, ci, node, fr):
        """A node of fluent.syntax.ast was constructed; overridden."""

    def on_construct(self, it, st, o, ci, node, fr, args, kw):
        if ci.mod.name == AST:
            self.rep.count("AST node constructions")
            self.built(it, st, o, ci, node, fr)


# ---------------------------------------------------------------------- C03
# class -> (first character, last character, character after the end)
EDGE = {
    "Identifier": (LETTER, IDCH, "notid"),
    "NumberLiteral": (DIGIT | cs("-"), DIGIT, "notdigit"),
    "StringLiteral": (cs('"'), cs('"'), None),
    "Placeable": (cs("{"), cs("}"), None),
    "VariableReference": (cs("$"), IDCH, None),
    "TermReference": (cs("-"), IDCH | cs(")"), None),
    "MessageReference": (LETTER, IDCH, None),
    "FunctionReference": (LETTER, cs(")"), None),
    "CallArguments": (cs("("), cs(")"), None),
    "NamedArgument": (LETTER, DIGIT | cs('"'), None),
    "Attribute": (cs("."), None, None),
    "Variant": (cs("[*"), None, None),
    "Term": (cs("-"), None, None),
    "Message": (LETTER, None, None),
    "Comment": (cs("#"), None, "eol"),
    "GroupComment": (cs("#"), None, "eol"),
    "ResourceComment": (cs("#"), None, "eol"),
}


class C03(NodeObs):
    def on_construct(self, it, st, o, ci, node, fr, args, kw):
        if ci.mod.name != AST:
            return
        if ci.name != "Span":
            r = inst(st, o)
            if r is not None and is_node(r):
                for fld, cv, c in children(st, r):
                    if c.ci.mod.name == AST and c.ci.name != "Span":
                        self.present(st, c, "%s.%s built in %s" % (ci.name, fld, fn_name(fr)), node, fr)
            return
        self.rep.count("span constructions")
        f = st.heap[o.a].f
        self.bounds(st, f.get("start", NONE_), f.get("end", NONE_), "Span built in " + caller(it, fr), node, fr)

    def bounds(self, st, s, e, con, node, fr):
        a, b = as_l(s), as_l(e)
        L = None
        for _, r in stream_of(st):
            L = len_sym(next(v for v in r.f.values() if isinstance(v, Src)).name)
        if a is None or b is None:
            self.rep.check(False, "span-bounds", con, "start %r end %r" % (s, e), where(node, fr), undecided=True)
            return
        if L is None:
            L = len_sym("S")
        ok = st.entails(a) and st.entails(b - a) and st.entails(L - b)
        self.check(ok, "span-bounds", con, "0 <= start <= end <= len(source) is not established (start=%s end=%s)" % (a, b),
                   node, fr)

    def on_setattr(self, it, st, b, name, v, node, fr):
        r = inst(st, b)
        if r is None:
            return
        if r.ci.name == "Span" and r.ci.mod.name == AST and name in ("start", "end"):
            f = dict(r.f)
            f[name] = v
            if as_l(f.get("start", NONE_)) is not None and as_l(f.get("end", NONE_)) is not None:
                if "start" in r.f and "end" in r.f:
                    old = (as_l(r.f["start"]), as_l(r.f["end"]))
                    new = (as_l(f["start"]), as_l(f["end"]))
                    grows = st.entails(old[0] - new[0]) and st.entails(new[1] - old[1])
                    ok = grows and st.entails(new[0]) and st.entails(new[1] - new[0])
                    self.rep.check(ok, "span-adjusted", fn_name(fr) + ": ." + name,
                                   "span is moved away from the text of its node", where(node, fr),
                                   undecided=not r.many and not disjoint(st, old, new))
            return
        if name == "span" and is_node(r):
            s = inst(st, v)
            if s is None:
                return
            a, b = as_l(s.f.get("start", NONE_)), as_l(s.f.get("end", NONE_))
            if a is None or b is None or s.many:
                return
            self.rep.count("span assignments")
            cl = r.ci.name
            con = "span of %s" % cl
            if cl in EDGE:
                first, last, after = EDGE[cl]
                src = "S"
                self.check(st.char(src, a).issubset(first), "span-edges", con + " starts at its first character",
                           "the span of a %s may start at %s" % (cl, st.char(src, a)), node, fr)
                if last is not None:
                    self.check(st.char(src, b - 1).issubset(last), "span-edges", con + " ends after its last character",
                               "the span of a %s may end after %s" % (cl, st.char(src, b - 1)), node, fr)
                c = st.char(src, b)
                if after == "notid":
                    self.check(not c & IDCH, "span-edges", con + " covers the whole name",
                               "an identifier character follows the span", node, fr)
                elif after == "notdigit":
                    self.check(not c & DIGIT, "span-edges", con + " covers all digits",
                               "a digit follows the span", node, fr)
                elif after == "eol":
                    self.check(c.issubset(LF | EOFSET | CS(((CRX, CRX),))), "span-edges", con + " ends at a line end",
                               "the comment's span ends before %s" % c, node, fr)
            if cl == "Junk":
                at = atoms_of(r.f.get("content", NONE_), st)
                if at is not None and (at == () or len(at) == 1 and at[0][0] == "sl"):
                    ok = at == () and a == b or at and at[0][2] == a and at[0][3] == b or at == () and st.entails(
                        a - b) and st.entails(b - a)
                    self.check(ok, "span-edges", con + " delimits its content", "content %r, span %s..%s" % (at, a, b),
                               node, fr)

    def on_return(self, it, st, f, v, nfr, node, fr):
        r = inst(st, v)
        if r is None or r.many or not is_node(r):
            return
        if not getattr(f.node, "_qual", "").startswith("fluent.syntax.parser"):
            return
        p = span_of(st, r)
        if p is None:
            return
        for fld, cv, c in children(st, r):
            self.contained(it, st, r, p, fld, c, f.node, nfr)

    def contained(self, it, st, r, p, fld, c, node, fr):
        if c.many:
            return
        q = span_of(st, c)
        if q is None:
            return
        con = "%s.%s within %s" % (r.ci.name, fld, r.ci.name)
        ok = st.entails(q[0] - p[0]) and st.entails(p[1] - q[1])
        definite = st.entails(p[0] - q[0] - 1) or st.entails(q[1] - p[1] - 1)
        self.rep.check(ok, "span-containment", con, "child span %s..%s, parent span %s..%s" % (q[0], q[1], p[0], p[1]),
                       where(node, fr), undecided=not definite)

    def on_append(self, it, st, o, v, node, fr):
        r = inst(st, v)
        if r is not None and not r.many and r.ci.mod.name == AST and r.ci.name != "Span":
            self.present(st, r, "%s appended in %s" % (r.ci.name, fn_name(fr)), node, fr)
            if is_node(r):
                p = span_of(st, r)
                if p is not None:
                    for fld, cv, c in children(st, r):
                        self.contained(it, st, r, p, fld, c, node, fr)
            if r.ci.name == "Annotation":
                self.annotation(st, o, r, node, fr)

    def annotation(self, st, o, r, node, fr):
        q = span_of(st, r)
        for a, j in st.heap.items():
            if isinstance(j, Inst) and j.ci is not None and not j.many and any(v == o for v in j.f.values()):
                p = span_of(st, j)
                if p is not None and q is not None:
                    ok = st.entails(q[0] - p[0]) and st.entails(p[1] - q[1])
                    definite = st.entails(p[0] - q[0] - 1) or st.entails(q[1] - p[1] - 1)
                    self.rep.check(ok, "span-containment", "Annotation within " + j.ci.name,
                                   "annotation %s..%s outside %s..%s" % (q + p), where(node, fr), undecided=False)

    def present(self, st, r, con, node, fr):
        s = r.f.get("span", NONE_)
        if self.run[1]:
            ok = inst(st, s) is not None and inst(st, s).ci.name == "Span" or isinstance(s, Sy) and nonnull(st, s)
            self.rep.check(ok, "span-present", con, "the node has no span although spans are on", where(node, fr),
                           undecided=s != NONE_)
        else:
            self.rep.check(s == NONE_, "span-absent", con, "the node has a span although spans are off", where(node, fr),
                           undecided=isinstance(s, Sy))

    def finish(self, it):
        rep = self.rep
        rep.rule("span-bounds", "at every construction of a Span: 0 <= start <= end <= len(source)")
        rep.rule("span-adjusted", "a span that is changed afterwards only grows to cover more of its node")
        rep.rule("span-edges", "the characters at both ends of the span assigned to a node are those its syntax prescribes")
        rep.rule("span-containment", "the span of a child lies within the span of its parent")
        rep.rule("span-present", "with spans on, every node has a span when it is returned or put into a list")
        rep.rule("span-absent", "with spans off, no node has a span")
        for st, v in it.root_results:
            r = inst(st, v)
            if r is not None:
                self.present(st, r, "%s returned by %s" % (r.ci.name, self.run[0]), None, None)
                p = span_of(st, r)
                if p is not None and r.ci.name == "Resource":
                    ok = st.entails(lin(0) - p[0]) and st.entails(p[1] - len_sym("S"))
                    rep.check(ok, "span-edges", "span of Resource is the whole source", "span %s..%s" % p, "parse")


def disjoint(st, old, new):
    return st.entails(new[0] - old[0] - 1) or st.entails(old[1] - new[1] - 1)


def caller(it, fr):
    """The grammar production in whose context a frame runs."""
    return it.ctxstack[-1].fn.node.name if it.ctxstack else "the entry point"


def c03(tier):
    rep = run_all("C03", C03, RUNS)
    rep.assumptions += ["the argument is a str"]
    return rep


# ---------------------------------------------------------------------- C04
class C04(NodeObs):
    def idx(self, st):
        return index_of(st)

    def junk(self, it, x, r, node, fr, was):
        cur = self.idx(x)
        at = atoms_of(r.f.get("content", NONE_), x)
        if cur is None:
            return
        con = "junk"
        if at is None or any(a[0] != "sl" for a in at) or len(at) > 1:
            self.check(False, "junk-verbatim", con + " is a slice of the source", "content is %r" % (at,), node, fr)
            return
        if was is None:
            return
        self.rep.count("junk results")
        if at:
            a, b = at[0][2], at[0][3]
        else:
            a, b = was, was
        same = lambda p, q: x.entails(p - q) and x.entails(q - p)  # noqa: E731
        self.check(same(a, was), "junk-verbatim", con + " starts where the entry began",
                   "content starts at %s, the entry at %s" % (a, was), node, fr)
        self.check(same(b, cur), "junk-verbatim", con + " ends where parsing resumes",
                   "content ends at %s, parsing resumes at %s" % (b, cur), node, fr)
        s = span_of(x, r)
        if s is not None:
            self.check(same(s[0], was) and same(s[1], cur), "junk-span", con + " span",
                       "span %s..%s, junk %s..%s" % (s[0], s[1], was, cur), node, fr)
        c = x.char("S", cur)
        ok = c.issubset(START)
        self.rep.check(ok, "junk-resume", con + " resumes at an entry start", "parsing resumes at %s" % c, where(node, fr),
                       undecided=bool(c & START))

    def on_return(self, it, st, f, v, nfr, node, fr):
        r = inst(st, v)
        if r is None or r.many or r.ci.name != "Junk" or f.mod.name != "fluent.syntax.parser":
            return
        if v.a[0] != "o" or "rJunk" in str(v.a[-1]):
            return          # built further down and checked there
        g = st.ghost.get(("prog", "ctx")) if not it.ctxstack else None
        self.junk(it, st, r, f.node, nfr, g[0][1] if g else None)
        L = st.heap.get(r.f["annotations"].a) if isinstance(r.f.get("annotations"), Obj) else None
        con = "annotations of the junk returned by " + fname(f)
        ok = isinstance(L, LRec) and L.exact() and len(L.tail) == 1 and inst(st, L.tail[0]) is not None and \
            inst(st, L.tail[0]).ci.name == "Annotation"
        self.check(ok, "junk-annotation", con, "expected exactly one Annotation, found %r" % (L,), f.node, nfr)
        if ok:
            an = inst(st, L.tail[0])
            for fld in ("code", "message"):
                w = an.f.get(fld)
                good = isinstance(w, Sy) and "ParseError" in repr(w.t) and fld in repr(w.t) or isinstance(w, K) and \
                    isinstance(w.v, str) and w.v
                self.check(bool(good), "junk-annotation", con + ": " + fld, "%s is %r" % (fld, w), f.node, nfr)

    def finish(self, it):
        rep = self.rep
        rep.rule("junk-verbatim", "the content of a Junk is one slice of the source, from the cursor at the call of the "
                                  "entry production up to the cursor after it")
        rep.rule("junk-span", "the span of a Junk has the same bounds as its content")
        rep.rule("junk-resume", "after a Junk the cursor is at the end of the source or at a character that starts an entry")
        rep.rule("junk-annotation", "a Junk returned by the parser carries exactly one Annotation with the code and "
                                    "message of the error caught")
        for st, v in it.root_results:
            r = inst(st, v)
            if r is not None and r.ci.name == "Junk":
                L = st.heap.get(r.f["annotations"].a) if isinstance(r.f.get("annotations"), Obj) else None
                rep.count("junk returned by the entry point")
        rep.need(rep.counts.get("junk results") or self.run[0] == "parse_entry", "a Junk result in " + self.run[0])


START = LETTER | cs("#-/[") | EOFSET      # '/' and '[': comment and section syntax of Fluent 0.4


def c04(tier):
    rep = run_all("C04", C04, RUNS)
    rep.assumptions += ["the argument is a str"]
    return rep


# ---------------------------------------------------------------------- C05
ESC = r'\\[\\"]|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{6}'
LEX = {
    ("Identifier", "name"): ("[a-zA-Z][a-zA-Z0-9_-]*", "an identifier"),
    ("NumberLiteral", "value"): ("-?[0-9]+(\\.[0-9]+)?", "a number literal"),
    ("StringLiteral", "value"): ('([^"\n])*', "a string literal (no raw quote or line break outside escapes)"),
    ("TextElement", "value"): ("([^{}])*", "text without braces"),
}


def contains_value(t, v):
    if t == v:
        return True
    if isinstance(t, tuple):
        return any(contains_value(x, v) for x in t)
    return False


def re_included(how, pat, spec):
    """Does a passed test of the regular expression imply the language (for strings without line breaks)?"""
    if how == "search" and not pat.startswith(("^", "\\A")):
        return False
    body = pat
    if body.startswith("^"):
        body = body[1:]
    elif body.startswith("\\A"):
        body = body[2:]
    if body.endswith("\\Z"):
        body = body[:-2]
    elif body.endswith("$"):
        body = body[:-1]
    elif how != "fullmatch":
        return False
    try:
        return nfa_included(regex(body), regex(spec)) is True
    except (ValueError, KeyError, TypeError):
        return False


class C05(NodeObs):
    def built(self, it, st, o, ci, node, fr):
        for n, v in st.heap[o.a].f.items():
            self.field(st, ci, n, v, node, fr)
        if ci.name == "FunctionReference":
            i = inst(st, st.heap[o.a].f.get("id", NONE_))
            if i is not None:
                self.tested(st, "[A-Z][A-Z0-9_-]*", i.f.get("name"), "function name in " + caller(it, fr),
                            "a function name", node, fr)

    def on_setattr(self, it, st, b, name, v, node, fr):
        r = inst(st, b)
        if r is not None and r.ci.mod.name == AST and not name.startswith("%"):
            if fr.node is not None and getattr(fr.node, "name", "") == "__init__":
                return      # checked on the finished node
            self.field(st, r.ci, name, v, node, fr)

    def lex(self, st, pat, v, con, what, node, fr):
        at = atoms_of(v, st) if v is not None else None
        r = included(at, st, pat) if at is not None else None
        if r is None:
            self.rep.check(False, "lexical", con, "opaque value %r" % (v,), where(node, fr), undecided=True)
        else:
            self.check(r is True, "lexical", con, "may be %r, not %s" % (r[1] if r is not True else "", what), node, fr)

    def tested(self, st, pat, v, con, what, node, fr):
        """The value is in the language, or a regular expression test it passed says so."""
        other = False
        for t, f in st.facts.items():
            if t[0] == "re" and t[3] == v and f.truth:
                if re_included(t[1], t[2], pat):
                    self.check(True, "lexical", con, "", node, fr)
                    return
            elif f.truth is not None and t[0] != "re" and contains_value(t, v):
                other = True
        if other:
            self.rep.check(False, "lexical", con, "tested by an opaque predicate", where(node, fr), undecided=True)
            return
        self.lex(st, pat, v, con, what, node, fr)

    def field(self, st, ci, n, v, node, fr):
        k = (ci.name, n)
        if k == ("StringLiteral", "value"):
            self.string(st, v, "StringLiteral.value in " + fn_name(fr), node, fr)
        elif k in LEX:
            pat, what = LEX[k]
            self.lex(st, pat, v, "%s.%s in %s" % (ci.name, n, fn_name(fr)), what, node, fr)
        if k in (("TextElement", "value"), ("Comment", "content"), ("GroupComment", "content"),
                 ("ResourceComment", "content"), ("StringLiteral", "value")):
            at = atoms_of(v, st)
            cr = has_crx(at, st) if at is not None else None
            self.rep.check(cr is False, "crlf", "%s.%s in %s" % (ci.name, n, fn_name(fr)),
                           "may contain the two characters CR LF of the source", where(node, fr), undecided=cr is None)

    def string(self, st, v, con, node, fr):
        """Between the pieces: ordinary characters or whole escape sequences."""
        at = atoms_of(v, st)
        if at is None:
            self.rep.check(False, "lexical", con, "opaque value", where(node, fr), undecided=True)
            return
        r = included(at, st, "([^\n])*")
        if r is None:
            self.rep.check(False, "lexical", con, "opaque value", where(node, fr), undecided=True)
            return
        self.check(r is True, "lexical", con + " has no line break", "may be %r" % (r,), node, fr)

    def on_return(self, it, st, f, v, nfr, node, fr):
        if f.mod.name != "fluent.syntax.parser":
            return
        at = atoms_of(v, st) if isinstance(v, (K, St, Ch)) else None
        if not at or not (at[0][0] == "l" and at[0][1].startswith("\\")):
            return
        self.rep.count("escape sequences returned")
        r = included(at, st, ESC)
        con = "escape sequence returned by " + fname(f)
        if r is None:
            self.rep.check(False, "escape", con, "opaque", where(f.node, nfr), undecided=True)
        else:
            self.check(r is True, "escape", con, "may be %r" % (r[1] if r is not True else "",), f.node, nfr)

    def finish(self, it):
        rep = self.rep
        rep.rule("lexical", "the abstract value of every leaf field, at every construction and assignment, is included in "
                            "the regular language of its token (automaton inclusion)")
        rep.rule("escape", "every string returned by the escape productions is a complete escape sequence")
        rep.rule("crlf", "no text, comment or literal content contains a CR LF pair of the source")


def has_crx(at, st):
    """Does the content include a raw CR LF pair of the source?"""
    und = False
    for a in at:
        if a[0] == "b":
            if any(lo <= CRX <= hi for lo, hi in a[1].iv):
                return True
        elif a[0] == "sl":
            c = st.range_cs(a[1], a[2], a[3])
            if any(lo <= CRX <= hi for lo, hi in c.iv):
                return True
        elif a[0] == "*":
            for x in a[1]:
                h = has_crx(x, st)
                if h:
                    return True
                und = und or h is None
        elif a[0] == "v":
            und = True
    return None if und else False


def c05(tier):
    rep = run_all("C05", C05, RUNS if tier == "thorough" else [("parse", False), ("parse_entry", False)])
    rep.assumptions += ["the argument is a str"]
    return rep


# ---------------------------------------------------------------------- C06
class C06(NodeObs):
    def built(self, it, st, o, ci, node, fr):
        f = st.heap[o.a].f
        site = self.site(ci, fr)
        nm = ci.name

        def pat(con, v):
            r = inst(st, v)
            self.check(r is not None and r.ci.name == "Pattern", "has-value", con, "value is %r" % (v,), node, fr)
        if nm in ("Term", "Attribute", "Variant"):
            pat(site, f.get("value", NONE_))
        elif nm == "Message":
            v = f.get("value", NONE_)
            L = st.heap.get(f["attributes"].a) if isinstance(f.get("attributes"), Obj) else None
            if v == NONE_:
                self.check(isinstance(L, LRec) and L.minlen() >= 1, "has-value", site + " without value",
                           "a message may have neither value nor attributes", node, fr)
            else:
                pat(site, v)
        elif nm == "SelectExpression":
            s = inst(st, f.get("selector", NONE_))
            if s is None:
                self.rep.check(False, "selector", site, "unknown selector", where(node, fr), undecided=True)
            else:
                c = s.ci.name
                ok = c in ("StringLiteral", "NumberLiteral", "VariableReference", "FunctionReference") or (
                    c == "TermReference" and s.f.get("attribute", NONE_) != NONE_ and inst(
                        st, s.f.get("attribute")) is not None or c == "TermReference" and isinstance(
                            s.f.get("attribute"), Sy) and nonnull(st, s.f["attribute"]))
                self.check(ok, "selector", site + " on " + c, "a %s is not a valid selector" % c, node, fr)
            L = st.heap.get(f["variants"].a) if isinstance(f.get("variants"), Obj) else None
            if not isinstance(L, LRec):
                self.rep.check(False, "variants", site, "unknown variants", where(node, fr), undecided=True)
            else:
                self.variants(st, L, site, node, fr)
        elif nm == "Placeable":
            e = inst(st, f.get("expression", NONE_))
            if e is not None and e.ci.name == "TermReference":
                self.check(e.f.get("attribute") == NONE_, "term-attribute", site,
                           "a placeable may directly hold a term attribute", node, fr)
            elif e is not None:
                self.rep.check(True, "term-attribute", site)

    def variants(self, st, L, site, node, fr):
        self.check(L.minlen() >= 1, "variants", site + " has a variant", "the list of variants may be empty", node, fr)

    def on_return(self, it, st, f, v, nfr, node, fr):
        # a list of variants leaving the production that collects it
        L = st.heap.get(v.a) if isinstance(v, Obj) else None
        if not isinstance(L, LRec) or L.org is not None:
            return
        rs = [(e, m, inst(st, e)) for e, m in L.pre] + [(e, 1, inst(st, e)) for e in L.tail]
        if not rs or not all(r is None or r.ci.name == "Variant" for _, _, r in rs) or not any(r for _, _, r in rs):
            return
        con = "variants returned by " + fname(f)
        yes = no = unk = 0
        for e, m, r in rs:
            d = r.f.get("default") if r is not None else None
            if r is None:
                continue
            if d == TRUE:
                yes += m if m == 1 else 2
            elif d == FALSE:
                no += 1
            else:
                unk += 1
        self.rep.count("variant lists returned")
        self.last = (yes, no, unk, L)
        if unk:
            self.rep.check(False, "one-default", con, "default markers unknown", where(f.node, nfr), undecided=True)
            return
        self.check(yes >= 1, "one-default", con + ": some default", "no variant is the default", f.node, nfr)
        self.check(yes <= 1, "one-default", con + ": not two defaults", "two variants may be the default", f.node, nfr)

    def on_append(self, it, st, o, v, node, fr):
        r = inst(st, v)
        if r is None or not is_node(r):
            return
        if r.ci.name == "NamedArgument":
            return
        # positional arguments: a list beside a list of named arguments
        q = fn_name(fr)
        for n, w in st.frames.get(fr.fid, {}).items():
            L = st.heap.get(w.a) if isinstance(w, Obj) else None
            if isinstance(L, LRec) and w != o and L.elems() and all(
                    inst(st, e) is None or inst(st, e).ci.name == "NamedArgument" for e in L.elems()) and any(
                        inst(st, e) is not None for e in L.elems()):
                if r.ci.name in ("Message", "Term", "Junk", "Variant", "Attribute", "TextElement"):
                    continue
                self.rep.check(L.minlen() == 0, "positional-first", "argument appended in " + q,
                               "a positional argument may follow a named one", where(node, fr), undecided=L.minlen() == 0)
            elif isinstance(L, LRec) and w != o and not L.elems() and r.ci.name in ("StringLiteral",):
                self.rep.check(True, "positional-first", "argument appended in " + q)

    def finish(self, it):
        rep = self.rep
        rep.rule("has-value", "terms, attributes, variants are built with a Pattern; a message without value is built with "
                              "a nonempty list of attributes")
        rep.rule("selector", "a select expression is only built over an admissible selector")
        rep.rule("variants", "a select expression is built with at least one variant")
        rep.rule("one-default", "a list of variants is returned with exactly one of them marked default")
        rep.rule("term-attribute", "a placeable is never built directly over a term attribute")
        rep.rule("positional-first", "a positional argument is only appended while there is no named argument")


def nonnull(st, v):
    f = st.facts.get(v.t)
    return f is not None and (f.truth is True or f.types is not None and not any(
        t[0] == "builtins.NoneType" for t in f.types) or "builtins.NoneType" in f.neg)


def c06(tier):
    rep = run_all("C06", C06, RUNS if tier == "thorough" else [("parse", False), ("parse_entry", False)])
    rep.assumptions += ["the argument is a str"]
    return rep
