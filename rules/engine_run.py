"""Drives the engine over the public entry points of fluent.syntax."""
import ast as A
import sys

from sa.interp import Frame, Interp
from sa.project import Project
from sa.state import FALSE, TRUE, State
from sa.values import Src

sys.setrecursionlimit(40000)


class RootNode:
    _id = "root"
    lineno = 0
    col_offset = 0


def tab_functions(mods, not_tab=("parse", "parse_entry")):
    """Functions summarised once per calling context: everything with a loop
    and every grammar production."""
    out = set()
    for m in mods:
        for n in A.walk(m.tree):
            if isinstance(n, A.FunctionDef) and (
                    n.name.startswith("get_") or n.name in ("maybe_get_pattern", "dedent")
                    or any(isinstance(k, (A.While, A.For)) for k in A.walk(n))):
                out.add(n.name)
    return out - set(not_tab)


def new_root(it, modname):
    m = it.p.modules[modname]
    st = State()
    fid = ("root",)
    st.frames[fid] = {}
    fr = Frame(fid, m.tree, m, None, ("root",), None)
    it.finfo[fid] = (m.tree, None, m)
    it.excs = [[]]
    return st, fr, fid


def run_parser(project, observers, method="parse", with_spans=True, deadline=None):
    mods = [project.modules[n] for n in ("fluent.syntax.parser", "fluent.syntax.stream")]
    it = Interp(project, observers, tab_names=tab_functions(mods), deadline=deadline)
    P = it.find("fluent.syntax.parser:FluentParser")
    it.find("fluent.syntax.parser:FluentParser." + method)

    def root(it):
        st, fr, fid = new_root(it, "fluent.syntax.parser")
        res = []
        for x, p in it.call(P, [], [("with_spans", TRUE if with_spans else FALSE)], st, RootNode, fr):
            x.frames[fid]["p"] = p
            res += it.callmethod(p, method, [Src("S")], x, RootNode, fr)
        it.root_results = res
        it.root_excs = list(it.excs[0])
        return res
    it.solve(root)
    return it
