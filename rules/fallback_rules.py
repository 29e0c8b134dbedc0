"""C32, C33: every abstract history of requests on a localization, and every outcome of the file loader, over exact small
lists of locales, roots and resource names; generators suspend exactly where the source suspends them (sa.coro)."""
from sa.interp import Interp
from sa.project import AnalysisBroken, Project
from sa.state import Fact, Inst, LRec
from sa.values import *  # noqa

from .engine_run import RootNode, new_root
from .report import Report

FB = "fluent.runtime.fallback"
STR = frozenset([("builtins.str", ())])
IDS = ("a", "b")


class Node:
    lineno = 0
    col_offset = 0

    def __init__(self, n):
        self._id = n


def arg(args, kw, i, name):
    for k, v in kw:
        if k == name:
            return v
    return args[i] if i < len(args) and not isinstance(args[i], tuple) else None


def log(st, *e):
    st.ghost["log"] = st.ghost.get("log", ()) + (e,)


class Loc:
    """The world around FluentLocalization: a loader, a bundle class and their answers."""

    def __init__(self, rep, lists, faults=False):
        self.rep = rep
        self.lists = lists
        self.faults = faults
        self.project = Project()
        it = self.it = Interp(self.project, [], tab_names=set())
        it.exact = True
        it.opaque_hook = self.opaque
        it.boundary = self.boundary
        self.iterable = lambda v, st: v.t[0] == "lo"
        it.opaque_next = self
        self.cls = it.find(FB + ":FluentLocalization")
        it.find(FB + ":FluentLocalization.format_value")
        self.n = 0
        self.paths = 0

    # loader -------------------------------------------------------------
    def boundary(self, it, f, args, kw, st, node, fr):
        b = f.self_
        n = getattr(getattr(f.f, "node", None), "name", "")
        if isinstance(b, Sy) and b.t[0] == "in" and b.t[1].startswith("loader") and n == "resources":
            return self.ask(b, args, kw, st)
        return None

    def ask(self, b, args, kw, st):
        n = st.ghost.get("asks", 0)
        st.ghost["asks"] = n + 1
        loc, ids = arg(args, kw, 0, "locale"), arg(args, kw, 1, "resource_ids")
        log(st, "ask", n, b, loc, ids)
        return [(st, Sy(("lo", n, b, loc)))]

    def __call__(self, it, s, st, node, fr):
        """The next result of the loader for one locale."""
        _, n, b, loc = s.t
        k = st.ghost.get(("pos", n), 0)
        if k == "dead":
            return [("stop", st, None)]
        key = ("dec", b, loc, k)
        st.ghost[("pos", n)] = k + 1
        out = []
        was = st.ghost.get(key)
        opts = [was] if was else (["stop", "item"] if k < self.lists else ["stop"])
        if not was and self.faults and not st.ghost.get("fault"):
            opts.append("raise")
        for o in opts:
            x = st.fork() if len(opts) > 1 else st
            if o == "raise":
                x.ghost["fault"] = loc
                x.ghost[("pos", n)] = "dead"
                out.append(("exc", x, Ex("builtins.OSError", ())))
                continue
            x.ghost[key] = o
            if o == "stop":
                x.ghost[("pos", n)] = "dead"
                out.append(("stop", x, None))
                continue
            items = self.resources(b, loc, k)
            a = ("o", ("root",), "list%d.%d" % (n, k))
            x.heap[a] = LRec(frozenset(), items, frozenset(), frozenset(), None, 0)
            x.frames[("root",)]["%%l%d.%d" % (n, k)] = Obj(a)
            out.append(("item", x, Obj(a)))
        return out

    def resources(self, b, loc, k):
        return tuple(Sy(("in", "resource", b, loc, k, j)) for j in range(2 if k == 0 else 1))

    # bundles ------------------------------------------------------------
    def opaque(self, it, f, args, kw, st, node, fr):
        if not isinstance(f, Sy):
            return None
        t = f.t
        if t[0] == "in" and t[1].startswith("bundle_class"):
            n = st.ghost.get("news", 0)
            st.ghost["news"] = n + 1
            b = Sy(("bu", n))
            st.facts[b.t] = Fact(truth=True)
            locs = arg(args, kw, 0, "locales")
            log(st, "new", b, f, self.items(st, locs), arg(args, kw, 1, "functions"), arg(args, kw, 2, "use_isolating"))
            return [(st, b)]
        if t[0] == "a" and isinstance(t[1], Sy) and t[1].t[0] == "bu":
            m = getattr(self, "m_" + t[2], None)
            if m is not None:
                return m(it, t[1], args, kw, st, node, fr)
            self.unknown = "bundle.%s" % t[2]
        return None

    unknown = None

    def items(self, st, v):
        if isinstance(v, Obj):
            r = st.heap.get(v.a)
            if isinstance(r, LRec) and r.exact():
                return tuple(r.tail)
        if isinstance(v, Tup):
            return v.items
        return None

    def m_add_resource(self, it, b, args, kw, st, node, fr):
        log(st, "add", b, arg(args, kw, 0, "resource"))
        return [(st, NONE_)]

    def decide(self, st, key, opts):
        was = st.ghost.get(key)
        if was is not None:
            return [(st, was)]
        out = []
        for o in opts:
            x = st.fork()
            x.ghost[key] = o
            out.append((x, o))
        return out

    def m_has_message(self, it, b, args, kw, st, node, fr):
        i = arg(args, kw, 0, "message_id")
        return [(x, K(o != "no")) for x, o in self.decide(st, ("has", b, i), ("no", "none", "yes"))]

    def m_get_message(self, it, b, args, kw, st, node, fr):
        i = arg(args, kw, 0, "message_id")
        out = []
        for x, o in self.decide(st, ("has", b, i), ("no", "none", "yes")):
            if o == "no":
                it.rx(x, "KeyError", node, fr, i)
                continue
            m = Sy(("msg", b, i))
            x.facts[m.t] = Fact(truth=True)
            v = Sy(("pat", b, i))
            x.facts[v.t] = Fact(truth=True, neg=frozenset(["builtins.NoneType"]))
            x.heap[m] = Inst(None, {"value": v if o == "yes" else NONE_})
            out.append((x, m))
        return out

    def m_format_pattern(self, it, b, args, kw, st, node, fr):
        p, a = arg(args, kw, 0, "pattern"), arg(args, kw, 1, "args")
        v = Sy(("fmt", b, p, a))
        # a formatted text may well be empty
        st.facts[v.t] = Fact(STR)
        e = Sy(("errs", b, p, a))
        st.facts[e.t] = Fact(frozenset([("builtins.list", (None,))]))
        return [(st, Tup((v, e)))]

    # histories ----------------------------------------------------------
    def new(self, st, fr, tag, nloc):
        st.frames[fr.fid]["x" + tag] = NONE_
        locs = []
        for i in range(nloc):
            x = Sy(("in", "locale%s%d" % (tag, i)))
            st.facts[x.t] = Fact(STR)
            locs.append(x)
        la = ("o", ("root",), "locales" + tag)
        st.heap[la] = LRec(frozenset(), tuple(locs), frozenset(), frozenset(), None, 0)
        ids = Sy(("in", "ids" + tag))
        st.facts[ids.t] = Fact(frozenset([("builtins.list", (STR,))]))
        loader = Sy(("in", "loader" + tag))
        st.facts[loader.t] = Fact(frozenset([(FB + ".AbstractResourceLoader", ())]), truth=True)
        iso = Sy(("in", "isolating" + tag))
        st.facts[iso.t] = Fact(frozenset([("builtins.bool", ())]))
        fn = Sy(("in", "functions" + tag))
        bc = Sy(("in", "bundle_class" + tag))
        st.facts[bc.t] = Fact(truth=True)
        st.frames[fr.fid]["k" + tag] = Tup((Obj(la), ids, loader, iso, fn, bc))
        w = {"locales": tuple(locs), "ids": ids, "loader": loader, "iso": iso, "fn": fn, "bc": bc}
        out = []
        kw = [("use_isolating", iso), ("bundle_class", bc), ("functions", fn)]
        for x, o in self.it.call(self.cls, [Obj(la), ids, loader], kw, st, Node("new" + tag), fr):
            x.frames[fr.fid]["x" + tag] = o
            out.append((x, o, w))
        return out

    def run(self, shapes, requests):
        """shapes: numbers of locales per localization; requests: sequences of (localization, identifier)."""
        it = self.it

        def root(it):
            st, fr, fid = new_root(it, FB)
            level = [(st, [])]
            for i, n in enumerate(shapes):
                nx = []
                for x, ls in level:
                    for y, o, w in self.new(x, fr, "ABC"[i], n):
                        nx.append((y, ls + [(o, w)]))
                level = nx
            for r in requests:
                self.walk(level, r, 0, fr, shapes)
            it.root_results = []
            return []
        it.solve(root)

    def walk(self, level, req, k, fr, shapes):
        if k == len(req):
            return
        it = self.it
        nxt = []
        for st0, ls in level:
            st = st0.fork()
            li, mid = req[k]
            o, w = ls[li]
            args = Sy(("in", "args%d" % k))
            st.facts[args.t] = Fact(frozenset([("builtins.dict", (None, None)), ("builtins.NoneType", ())]))
            it.excs.append([])
            res = it.callmethod(o, "format_value", [K(mid), args], st, Node("req%d" % k), fr)
            ex = it.excs.pop()
            for how, rs in (("ok", res), ("raise", ex)):
                for x, v in rs:
                    self.paths += 1
                    need = dict(x.ghost.get("need", ()))
                    self.judge(x, w, li, mid, args, how, v, need, req[:k + 1], shapes)
                    x.ghost["need"] = tuple(sorted(need.items(), key=str))
                    if self.faults and k == 0 and not (how == "raise" and x.ghost.get("fault")):
                        continue        # histories without a failure are explored elsewhere
                    nxt.append((x, ls))
        self.walk(nxt, req, k + 1, fr, shapes)

    def chk(self, ok, rule, con, msg, und=False):
        self.n += 1
        self.rep.check(ok, rule, con, msg, "", undecided=und)

    def judge(self, st, w, li, mid, args, how, v, need, req, shapes):
        con = "request %d of %s with %s locales" % (len(req), "".join("ABC"[i] + ":" + m + " " for i, m in req).strip(),
                                                   "+".join(str(n) for n in shapes))
        lg = st.ghost.get("log", ())
        g = st.ghost
        if self.faults and len(req) > 1:
            con = "a request after the loader failed"
            if how == "ok" and v == K(mid):
                done = all(self.exhausted(g, w, loc) for loc in w["locales"])
                self.chk(done, "gives-up-only-at-the-end", con,
                         "answers with the identifier without having seen every locale's results")
            return
        if how == "raise":
            self.chk(bool(g.get("fault")), "answers", con, "raises " + self.it.show_exc(st, v))
            return
        if self.unknown:
            self.chk(False, "answers", con, "uses " + self.unknown, und=True)
            return
        # what must come out
        news = {}
        for e in lg:
            if e[0] == "new":
                news[e[1]] = [e[2:], []]
            elif e[0] == "add" and e[1] in news:
                news[e[1]][1].append(e[2])
        mine = {b: d for b, d in news.items() if d[0][0] == w["bc"]}
        want = K(mid)
        used = need.get(li, 0)
        count = 0
        bad = None
        for i, loc in enumerate(w["locales"]):
            k = 0
            while bad is None:
                d = g.get(("dec", w["loader"], loc, k))
                if d is None:
                    bad = ("in-order", "the loader's result %d for locale %d was not looked at" % (k + 1, i + 1))
                    break
                if d == "stop":
                    break
                rs = list(self.resources(w["loader"], loc, k))
                hits = [b for b, x in mine.items() if x[1] and x[1][0] == rs[0]]
                count += 1
                if not hits:
                    bad = ("in-order", "no bundle was made from result %d for locale %d" % (k + 1, i + 1))
                    break
                self.chk(len(hits) == 1, "created-once", con, "%d bundles made from result %d for locale %d" % (len(hits), k + 1, i + 1))
                b = hits[0]
                (bc, locs, fn, iso), adds = mine[b]
                self.chk(adds == rs, "all-resources", con, "the bundle of result %d for locale %d gets other resources than "
                         "the loader's, in their order" % (k + 1, i + 1))
                self.chk(locs == w["locales"][i:], "locale-chain", con, "the bundle for locale %d is given other locales than this one and the "
                         "following ones" % (i + 1), und=locs is None)
                self.chk(fn == w["fn"] and iso == w["iso"], "settings", con, "the bundle is not given the functions and isolation setting")
                o = g.get(("has", b, K(mid)))
                if o is None:
                    bad = ("in-order", "bundle %d was not asked for the message" % count)
                    break
                if o == "yes":
                    want = Sy(("fmt", b, Sy(("pat", b, K(mid))), args))
                    bad = ()
                k += 1
            if bad is not None:
                break
        if bad:
            self.chk(False, bad[0], con, bad[1] + ", yet the request is answered")
            return
        used = max(used, count)
        need[li] = used
        self.chk(v == want, "first-with-value", con, "answers %s instead of %s" % (self.show(v), self.show(want)))
        self.chk(len(mine) <= used, "lazy", con, "%d bundles made where %d were needed so far" % (len(mine), used))
        for e in lg:
            if e[0] == "ask" and e[2] == w["loader"]:
                self.chk(e[4] == w["ids"], "asks-for", con, "the loader is asked for other resources than the configured ones")
                self.chk(e[3] in w["locales"], "asks-for", con, "the loader is asked for another locale")

    def exhausted(self, g, w, loc):
        k = 0
        while g.get(("dec", w["loader"], loc, k)) == "item":
            k += 1
        return g.get(("dec", w["loader"], loc, k)) == "stop"

    def show(self, v):
        if isinstance(v, K):
            return "the identifier"
        if isinstance(v, Sy) and v.t[0] == "fmt":
            return "the text from bundle %s" % (v.t[1].t[1] + 1)
        return "something else"


def c32(tier):
    r = Report("C32")
    r.rule("first-with-value", "the answer is the formatted value from the first bundle in order that has the message with "
                               "a value, else the identifier")
    r.rule("in-order", "no earlier locale, loader result or bundle is passed over")
    r.rule("created-once", "at most one bundle is made from one loader result")
    r.rule("lazy", "no bundle is made before a request needs it")
    r.rule("all-resources", "a bundle gets all resources of its loader result, in order")
    r.rule("locale-chain", "a bundle's locales are its own followed by the remaining ones")
    r.rule("settings", "every bundle gets the configured functions and isolation setting")
    r.rule("asks-for", "the loader is asked for the configured locales and resources")
    r.rule("answers", "a request raises only when the loader does")
    r.rule("gives-up-only-at-the-end", "the identifier is the answer only when all locales' results were seen")
    A = [(0, "a"), (0, "b")]
    runs = []
    for n in range(0, 3):
        runs.append((2, False, (n,), [((0, "a"), q) for q in A]))
    runs.append((1, False, (3,), [((0, "a"),)]))
    runs.append((1, False, (1, 2), [((0, "a"), (1, "a"), (0, "a"))]))
    runs.append((1, False, (2,), [((0, "a"), (0, "b"), (0, "a"))]))
    runs.append((1, True, (2,), [((0, "a"), (0, "a"))]))
    if tier == "thorough":
        runs.append((1, False, (3,), [((0, "a"), (0, "b"), q) for q in A]))
        runs.append((2, False, (2,), [((0, "a"), (0, "b"), q) for q in A]))
        runs.append((1, False, (2, 2), [((0, "a"), (1, "a"), (0, "b"), (1, "b"))]))
        runs.append((2, True, (3,), [((0, "a"), (0, "b"))]))
    for lists, faults, shapes, reqs in runs:
        L = Loc(r, lists, faults)
        L.run(shapes, reqs)
        r.count("outcomes of requests", L.paths)
        r.count("conditions compared", L.n)
        if L.it.gaveup:
            r.check(False, "answers", "exploration of %s" % (shapes,), "given up: %s" % list(L.it.unsupported)[:2], undecided=True)
        for u in list(L.it.unsupported)[:3]:
            r.note("imprecision: %s" % (str(u)[:200],))
    r.assumptions += ["up to %d locales, %d loader results per locale and %d requests (also alternating between two localizations); "
                      "longer histories are not enumerated" % ((3, 2, 4) if tier == "thorough" else (2, 2, 3)),
                      "the bundle class and the loader answer the same question the same way each time; at most one "
                      "loader failure"]
    return r


# ---------------------------------------------------------------------- C33
UTF8 = {"utf-8", "utf8", "utf_8", "u8", "utf"}


def path_parts(v):
    """((symbol, locale substituted?), ...) joined by separators, or None"""
    if isinstance(v, Sy):
        if v.t[0] == "path":
            return v.t[1]
        if v.t[0] == "in":
            return ((v, False),)
        return None
    if isinstance(v, K) and isinstance(v.v, str):
        return ((v, False),)
    if isinstance(v, St):
        out = ()
        glue = True
        for i, a in enumerate(v.items):
            if a[0] == "v":
                p = path_parts(a[1])
                if p is None or not glue:
                    return None
                out += p
                glue = False
            elif a[0] == "l" and a[1] == "/" or a == ("c", "/") or a[0] == "k" and a[1] == "/":
                glue = True
            else:
                return None
        return out
    return None


class FileInterp(Interp):
    world = None

    def call_ext(self, q, args, kw, st, node, fr):
        r = None if self.world is None else self.world.ext(self, q, args, kw, st, node, fr)
        return Interp.call_ext(self, q, args, kw, st, node, fr) if r is None else r

    def call_bm(self, bm, args, kw, st, node, fr):
        r = None if self.world is None else self.world.method(self, bm.base, bm.name, args, kw, st, node, fr)
        return Interp.call_bm(self, bm, args, kw, st, node, fr) if r is None else r


class Files:
    """The world around FluentResourceLoader: a file system of symbolic paths."""

    def __init__(self, rep):
        self.rep = rep
        it = self.it = FileInterp(Project(), [], tab_names=set())
        it.world = self
        it.exact = True
        it.observers = [self]
        it.opaque_hook = self.opaque
        it.boundary = self.boundary
        self.cls = it.find(FB + ":FluentResourceLoader")
        it.find(FB + ":FluentResourceLoader.resources")
        self.n = self.paths = self.runs = 0
        self.lost = None

    def chk(self, ok, rule, con, msg, und=False):
        self.n += 1
        self.rep.check(ok, rule, con, msg, "", undecided=und)

    def mkpath(self, st, parts):
        v = Sy(("path", tuple(parts)))
        st.facts.setdefault(v.t, Fact(STR))
        return v

    def kind(self, st, p):
        """[(state, kind)] of what is at a path: file, dir or nothing."""
        key = ("at", p)
        was = st.ghost.get(key)
        if was:
            return [(st, was)]
        out = []
        for k in ("file", "dir", "none"):
            x = st.fork()
            x.ghost[key] = k
            out.append((x, k))
        return out

    def ext(self, it, q, args, kw, st, node, fr):
        if q in ("os.path.join", "posixpath.join"):
            parts = ()
            for a in args:
                p = path_parts(a)
                if p is None:
                    return None
                parts += p
            return [(st, self.mkpath(st, parts))]
        if q in ("os.path.isfile", "os.path.exists", "os.path.isdir", "os.path.lexists", "os.access"):
            p = path_parts(arg(args, kw, 0, "path"))
            if p is None:
                self.lost = q
                return None
            yes = {"os.path.isfile": ("file",), "os.path.isdir": ("dir",)}.get(q, ("file", "dir"))
            return [(x, K(k in yes)) for x, k in self.kind(st, p)]
        if q in ("os.path.normpath", "os.fspath", "os.path.normcase") and path_parts(args[0]) is not None:
            return [(st, args[0])]
        if q in ("codecs.open", "io.open", "builtins.open"):
            return self.open(it, q, args, kw, st, node, fr)
        if q in ("contextlib.closing", "contextlib.nullcontext"):
            self.lost = q
        return None

    def open(self, it, q, args, kw, st, node, fr):
        p = path_parts(arg(args, kw, 0, "filename" if q.startswith("codecs") else "file"))
        if p is None:
            self.lost = "the path of " + q
            return None
        mode = arg(args, kw, 1, "mode")
        enc = arg(args, kw, 2 if q.startswith("codecs") else 3, "encoding")
        err = arg(args, kw, 3 if q.startswith("codecs") else 4, "errors")
        out = []
        for x, k in self.kind(st, p):
            if k != "file":
                it.rx(x, "FileNotFoundError" if k == "none" else "IsADirectoryError", node, fr, K("open"))
                continue
            n = x.ghost["files"] = x.ghost.get("files", 0) + 1
            f = Sy(("c", ("open", q), p, n))
            x.facts[f.t] = Fact(truth=True)
            x.ghost[("file", f)] = (p, self.const(mode, "r"), self.const(enc, None), self.const(err, None))
            x.ghost["open"] = x.ghost.get("open", frozenset()) | {f}
            out.append((x, f))
        return out

    def const(self, v, default):
        if v is None or v == NONE_:
            return default
        return v.v if isinstance(v, K) else "?"

    def method(self, it, b, name, args, kw, st, node, fr):
        p = path_parts(b)
        if p is not None:
            loc = arg(args, kw, 9, "locale")
            if name == "format" and not args:
                if isinstance(loc, Sy) and loc == Sy(("in", "locale")):
                    return [(st, self.mkpath(st, tuple((a, True) for a, _ in p)))]
                return [(st, self.mkpath(st, tuple((a, ("other", loc)) for a, _ in p)))]
            if name == "replace" and len(args) == 2 and args[0] == K("{locale}"):
                return [(st, self.mkpath(st, tuple((a, args[1] == Sy(("in", "locale")) or ("other", args[1])) for a, _ in p)))]
        if isinstance(b, Sy) and b.t[0] == "raw" and name == "decode":
            e = arg(args, kw, 0, "encoding")
            r = arg(args, kw, 1, "errors")
            return self.text(it, b.t[1], self.const(e, "utf-8"), self.const(r, None), st, node, fr)
        return None

    def text(self, it, p, enc, err, st, node, fr):
        v = Sy(("text", p, str(enc).lower(), err))
        st.facts[v.t] = Fact(STR)
        return [(st, v)]

    def opaque(self, it, f, args, kw, st, node, fr):
        if isinstance(f, Sy) and f.t[0] == "a" and isinstance(f.t[1], Sy) and ("file", f.t[1]) in st.ghost:
            h, n = f.t[1], f.t[2]
            p, mode, enc, err = st.ghost[("file", h)]
            if n == "close":
                st.ghost["open"] = st.ghost["open"] - {h}
                return [(st, NONE_)]
            if n == "read" and not args:
                if h not in st.ghost["open"]:
                    it.rx(st, "ValueError", node, fr, K("I/O operation on closed file"))
                    return []
                for q in ("OSError", "UnicodeDecodeError"):
                    y = st.fork()
                    y.ghost["failed"] = True
                    it.rx(y, q, node, fr, K("read"))
                if "b" in str(mode) and enc is None:
                    v = Sy(("raw", p))
                    st.facts[v.t] = Fact(frozenset([("builtins.bytes", ())]))
                    return [(st, v)]
                return self.text(it, p, enc or "locale's", err, st, node, fr)
            self.lost = "file." + n
            return None
        if isinstance(f, tuple):
            self.lost = str(f)[:60]
        return None

    def boundary(self, it, f, args, kw, st, node, fr):
        b = f.self_
        n = getattr(getattr(f.f, "node", None), "name", "")
        if n == "parse" and isinstance(b, Obj):
            r = it.rec(st, b.a)
            if isinstance(r, Inst) and r.ci is not None and any(
                    getattr(c, "qual", "") == "fluent.syntax.parser.FluentParser" for c in r.ci.mro()):
                a = arg(args, kw, 0, "source")
                v = Sy(("parsed", a))
                st.facts[v.t] = Fact(frozenset([("fluent.syntax.ast.Resource", ())]), truth=True)
                return [(st, v)]
        return None

    def on_exit(self, it, st, v, s, fr, how):
        if isinstance(v, Sy) and ("file", v) in st.ghost:
            st.ghost["open"] = st.ghost["open"] - {v}

    # ------------------------------------------------------------------ runs
    def run(self, nroots, nids):
        """nroots: None for a single string."""
        it = self.it
        self.runs += 1
        con = "%s, %d resource names" % ("one root given as a string" if nroots is None else "%d roots" % nroots, nids)

        def root(it):
            st, fr, fid = new_root(it, FB)
            loc = Sy(("in", "locale"))
            st.facts[loc.t] = Fact(STR)

            def strs_(tag, n):
                xs = tuple(Sy(("in", "%s%d" % (tag, i))) for i in range(n))
                for x in xs:
                    st.facts[x.t] = Fact(STR)
                a = ("o", ("root",), tag)
                st.heap[a] = LRec(frozenset(), xs, frozenset(), frozenset(), None, 0)
                st.frames[fid]["k" + tag] = Obj(a)
                return xs, Obj(a)
            ids, idl = strs_("id", nids)
            if nroots is None:
                roots = (Sy(("in", "root")),)
                st.facts[roots[0].t] = Fact(STR)
                ra = roots[0]
            else:
                roots, ra = strs_("root", nroots)
            for x, o in it.call(self.cls, [ra], [], st, Node("new"), fr):
                x.frames[fid]["loader"] = o
                it.excs.append([])
                gs = it.callmethod(o, "resources", [loc, idl], x, Node("ask"), fr)
                for y, e in it.excs.pop():
                    self.chk(False, "skips-missing", con, "asking raises " + it.show_exc(y, e))
                for y, g in gs:
                    s = it.lazy(g, y)
                    if s is None:
                        self.chk(False, "exactly-existing", con, "result of an unknown kind", und=True)
                        continue
                    self.drain(y, s, fr, roots, ids, con)
            it.root_results = []
            return []
        it.solve(root)

    def drain(self, st, s, fr, roots, ids, con):
        it = self.it
        work = [(st, s, ())]
        for _ in range(len(roots) + 2):
            nw = []
            for x0, s0, got in work:
                for k, x, v, t in it.iter_next(s0, x0, Node("next%d" % len(got)), fr):
                    if x.ghost.get("open"):
                        self.chk(False, "closed", con, "a file is still open when the loader %s" % (
                            "hands out a result" if k == "item" else "raises" if k != "stop" else "is done"))
                    else:
                        self.chk(True, "closed", con, "")
                    if k == "item":
                        if len(got) > len(roots):
                            self.judge(x, got + (self.items(x, v),), roots, ids, con)
                            continue
                        x.frames[fr.fid]["got%d" % len(got)] = v
                        nw.append((x, t, got + ((v, self.items(x, v)),)))
                    else:
                        self.judge(x, got, roots, ids, con, None if k == "stop" else v)
            work = nw

    def items(self, st, v):
        if isinstance(v, Obj):
            r = st.heap.get(v.a)
            if isinstance(r, LRec) and r.exact():
                return tuple(r.tail)
            return None
        return v.items if isinstance(v, Tup) else None

    def judge(self, st, got, roots, ids, con, exc=None):
        self.paths += 1
        und = bool(self.lost or self.it.gaveup)
        if exc is not None:
            self.chk(bool(st.ghost.get("failed")), "skips-missing", con, "raises %s although no read failed" % self.it.show_exc(st, exc), und)
        want = []
        for r in roots:
            now = []
            for i in ids:
                p = ((r, True), (i, True))
                k = st.ghost.get(("at", p))
                if k == "file":
                    now.append(p)
                elif k is None and exc is None:
                    near = [q[1] for q in st.ghost if isinstance(q, tuple) and q[0] == "at" and [a for a, _ in q[1]] == [r, i]]
                    self.chk(False, "locale-substituted" if near else "exactly-existing", con,
                             "the locale is not substituted in root and resource name" if near else
                             "never looks whether resource %s of root %s exists" % (ids.index(i) + 1, roots.index(r) + 1), und)
                    return
            if now:
                want.append(now)
        flat = []
        for v, items in got:
            self.chk(items is None or self.items(st, v) == items, "exactly-existing", con, "a list handed out is changed afterwards", und)
            if items is None:
                self.chk(False, "exactly-existing", con, "a result of unknown content", True)
                return
            row = []
            for x in items:
                p = x.t[1].t if isinstance(x, Sy) and x.t[0] == "parsed" and isinstance(x.t[1], Sy) else None
                if p is None or p[0] != "text":
                    self.chk(False, "exactly-existing", con, "yields something that is not the parse of a file's text", und)
                    return
                self.chk(p[2] in UTF8 and p[3] in (None, "strict"), "utf-8", con, "the file is decoded as %s%s" % (
                    p[2], " with errors=%s" % p[3] if p[3] else ""), und or p[2] == "?")
                row.append(p[1])
            flat.append(row)
        if exc is not None:
            want = want[:len(flat)]
        self.chk(flat == want, "exactly-existing", con, "yields %s where %s exist" % (
            [[self.name(p) for p in r] for r in flat], [[self.name(p) for p in r] for r in want]), und)

    def name(self, p):
        return "/".join("%s%s" % (a.t[1] if isinstance(a, Sy) else a, "" if s is True else " unsubstituted") for a, s in p)


def c33(tier):
    r = Report("C33")
    r.rule("exactly-existing", "one list per root, in order, of the parses of exactly the requested files that exist there, in "
                               "request order; never an empty list")
    r.rule("locale-substituted", "the locale is substituted in root and resource name")
    r.rule("skips-missing", "only a failing read makes the loader raise")
    r.rule("utf-8", "the text parsed is the whole file decoded as UTF-8")
    r.rule("closed", "no file is open when a result is handed out, at the end, or when an exception leaves")
    F = Files(r)
    top = 3 if tier == "thorough" else 2
    for nr in [None] + list(range(top + 1)):
        for ni in range(top + 1):
            if nr == 3 and ni == 3:
                continue
            F.run(nr, ni)
    r.count("arrangements", F.runs)
    r.count("outcomes", F.paths)
    r.count("conditions compared", F.n)
    if F.lost:
        r.note("not modelled: " + F.lost)
    for u in list(F.it.unsupported)[:3]:
        r.note("imprecision: %s" % (str(u)[:200],))
    r.assumptions += ["up to %d roots and %d resource names (different ones); each path is a file, a directory or nothing, and does "
                      "not change between looking and opening; each read may fail" % (top, top)]
    return r
