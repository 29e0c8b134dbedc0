"""Names: locals of a function, liveness of locals after each statement, call names."""
import ast

_FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
_COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + (
        [a.vararg.arg] if a.vararg else []) + ([a.kwarg.arg] if a.kwarg else [])


def local_names(fn):
    """Names local to a function/lambda/comprehension node (cached)."""
    r = getattr(fn, "_locals", None)
    if r is not None:
        return r
    out = set()
    glob = set()
    if isinstance(fn, _FN):
        out.update(params(fn))
        body = fn.body if isinstance(fn.body, list) else [fn.body]
    elif isinstance(fn, _COMP):
        body = []
        for g in fn.generators:
            _targets(g.target, out)
    else:
        body = fn.body

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, _COMP):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])
        for c in ast.iter_child_nodes(n):
            walk(c)

    for s in body:
        walk(s)
    out -= glob
    fn._locals = out
    return out


def _targets(t, out):
    for n in ast.walk(t):
        if isinstance(n, ast.Name):
            out.add(n.id)


def nonlocals(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Nonlocal):
            out.update(n.names)
    return out


def is_generator(fn):
    r = getattr(fn, "_isgen", None)
    if r is None:
        r = False
        work = list(fn.body) if isinstance(fn.body, list) else [fn.body]
        while work:
            n = work.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, _FN + (ast.ClassDef,)):
                continue
            work.extend(ast.iter_child_nodes(n))
        fn._isgen = r
    return r


def captured(fn):
    """Names read by nested functions/comprehensions of fn."""
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, _FN):
            for x in ast.walk(n):
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def liveness(fn):
    """dict id(stmt) -> frozenset of locals live after it (cached on fn)."""
    r = getattr(fn, "_live", None)
    if r is not None:
        return r
    after = {}
    loc = local_names(fn)
    always = captured(fn) & loc

    def uses(n):
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("super", "locals", "vars"):
                out.update(params(fn)[:1] if isinstance(fn, _FN) else [])
        return out

    def defs(t):
        if isinstance(t, ast.Name):
            return {t.id}
        if isinstance(t, (ast.Tuple, ast.List)):
            o = set()
            for e in t.elts:
                o |= defs(e)
            return o
        if isinstance(t, ast.Starred):
            return defs(t.value)
        return set()

    def block(stmts, out, brk, cnt, exc):
        live = set(out)
        for s in reversed(stmts):
            after[id(s)] = after.get(id(s), frozenset()) | frozenset(live)
            live = stmt(s, live, brk, cnt, exc)
        return live

    def stmt(s, out, brk, cnt, exc):
        if isinstance(s, ast.Assign):
            d = set()
            for t in s.targets:
                d |= defs(t)
            u = uses(s.value)
            for t in s.targets:
                u |= uses(t)
            return (out - d) | u | exc
        if isinstance(s, ast.AnnAssign):
            d = defs(s.target) if s.value else set()
            return (out - d) | (uses(s.value) if s.value else set()) | uses(s.target) | exc
        if isinstance(s, ast.AugAssign):
            u = uses(s.value) | uses(s.target)
            if isinstance(s.target, ast.Name):
                u.add(s.target.id)
            return out | u | exc
        if isinstance(s, (ast.Return, ast.Raise)):
            return uses(s) | exc
        if isinstance(s, ast.Break):
            return set(brk) | exc
        if isinstance(s, ast.Continue):
            return set(cnt) | exc
        if isinstance(s, ast.If):
            a = block(s.body, out, brk, cnt, exc)
            b = block(s.orelse, out, brk, cnt, exc)
            return a | b | uses(s.test) | exc
        if isinstance(s, (ast.While, ast.For)):
            head = set(out) | exc
            while True:
                els = block(s.orelse, out, brk, cnt, exc)
                body = block(s.body, head, out, head, exc)
                if isinstance(s, ast.While):
                    new = body | els | uses(s.test) | exc
                else:
                    new = (body - defs(s.target)) | els | exc
                if new <= head:
                    break
                head |= new
            if isinstance(s, ast.For):
                head |= uses(s.iter)
            s._head = frozenset(head)
            return head
        if isinstance(s, ast.Try):
            fin = block(s.finalbody, out | exc | set(brk) | set(cnt) if s.finalbody else out, brk, cnt, exc) \
                if s.finalbody else set(out)
            e2 = set(exc) | (fin if s.finalbody else set())
            h = set()
            for x in s.handlers:
                b = block(x.body, fin, brk | fin if s.finalbody else brk, cnt | fin if s.finalbody else cnt, e2)
                if x.name:
                    b = b - {x.name}
                if x.type:
                    b |= uses(x.type)
                h |= b
            els = block(s.orelse, fin, brk | fin if s.finalbody else brk, cnt | fin if s.finalbody else cnt, e2)
            return block(s.body, els, brk | fin if s.finalbody else brk, cnt | fin if s.finalbody else cnt, e2 | h) | e2
        if isinstance(s, ast.With):
            d = set()
            u = set()
            for it in s.items:
                u |= uses(it.context_expr)
                if it.optional_vars is not None:
                    d |= defs(it.optional_vars)
            b = block(s.body, out, brk, cnt, exc | set())
            return (b - d) | u | out | exc
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return out | uses(s) | exc
        return out | uses(s) | exc

    body = fn.body if isinstance(fn.body, list) else []
    block(body, set(), set(), set(), set())
    res = {k: frozenset(v | always) for k, v in after.items()}
    fn._live = res
    fn._always = always
    return res


def call_graph_sccs(modules):
    """Names of functions in recursive components of the name-based call graph."""
    g = {}
    for m in modules:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                called = g.setdefault(n.name, set())
                for x in ast.walk(n):
                    if isinstance(x, ast.Attribute):
                        called.add(x.attr)
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                        called.add(x.id)
    for n in g:
        g[n] &= set(g)
    # Tarjan
    idx, low, st, on, out = {}, {}, [], set(), set()
    import sys
    sys.setrecursionlimit(20000)

    def visit(v):
        idx[v] = low[v] = len(idx)
        st.append(v)
        on.add(v)
        for w in sorted(g[v]):
            if w not in idx:
                visit(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in g[v]:
                out.update(comp)
    for v in sorted(g):
        if v not in idx:
            visit(v)
    return out
