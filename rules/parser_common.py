"""Runs the parser under the engine with the observers of one property."""
import multiprocessing as mp
import os
import sys
import time

from sa.interp import Budget
from sa.project import Project, AnalysisBroken
from sa.state import Inst, len_sym
from sa.values import *  # noqa

from .engine_run import run_parser
from .report import Report, snippet, where

RUNS = [("parse", True), ("parse", False), ("parse_entry", True), ("parse_entry", False)]


def fn_name(fr):
    n = getattr(fr, "node", None)
    return getattr(n, "_qual", None) or getattr(n, "name", "<module>")


class Obs:
    """Base of the parser observers: obligations of one property."""
    always = False

    def __init__(self, rep, run):
        self.rep = rep
        self.run = run

    def start_pass(self, it, n):
        self.rep.obl.clear()
        self.rep.counts.clear()

    def finish(self, it):
        pass

    def check(self, ok, rule, construct, msg, node, fr):
        return self.rep.check(ok, rule, construct, msg, where(node, fr))


def stream_of(st):
    """The cursor objects: instances holding the source text (addr, record)."""
    for a, r in st.heap.items():
        if isinstance(r, Inst) and r.ci is not None and not r.many:
            if any(isinstance(v, Src) for v in r.f.values()):
                yield a, r


def as_l(v):
    from sa.join import as_lin
    return as_lin(v)


def int_fields(r):
    return sorted(n for n, v in r.f.items() if not n.startswith("%") and as_l(v) is not None
                  and not (isinstance(v, K) and isinstance(v.v, bool)))


def _one(job):
    cls_mod, cls_name, prop, method, spans, deadline = job
    sys.setrecursionlimit(40000)
    mod = __import__(cls_mod, fromlist=[cls_name])
    rep = Report(prop)
    ob = getattr(mod, cls_name)(rep, (method, spans))
    try:
        p = Project()
        it = run_parser(p, [ob], method, spans, deadline=deadline)
        ob.finish(it)
    except Budget:
        rep = Report(prop)
        rep.check(False, "analysis-budget", "%s(with_spans=%s)" % (method, spans),
                  "no fixpoint within the time budget", undecided=True)
        return rep
    except AnalysisBroken as e:
        rep.errors.append(str(e))
        return rep
    label = "%s(with_spans=%s)" % (method, spans)
    rep.count("statements evaluated", it.stats["stmts"])
    rep.count("calls evaluated", it.stats["calls"])
    rep.count("loop heads", it.stats["heads"])
    rep.count("state joins", it.stats["joins"])
    rep.count("tabulated contexts", len(it.table))
    rep.note("entry point analysed to a fixpoint: %s in %d passes, %d normal outcomes, %d escaping exceptions" % (
        label, it.passes, len(it.root_results), len(it.root_excs)))
    if it.unsupported:
        why = sorted("%s at %s" % (k[1], k[0]) if isinstance(k, tuple) and len(k) == 2 else str(k)
                     for k in it.unsupported)[:20]
        rep.note("imprecision in %s: %s" % (label, "; ".join(map(str, why))))
        # an analysis that lost precision raises no alarm
        for k, v in rep.obl.items():
            if v[0] == "violated":
                v[0] = "undecided"
                v[2] = "analysis imprecise here: " + v[2]
    return rep


def run_all(prop, cls, runs, parallel=4):
    """Analyse the entry points in parallel and merge the reports."""
    jobs = [(cls.__module__, cls.__name__, prop, m, s, time.time() + 660) for m, s in runs]
    rep = Report(prop)
    if len(jobs) == 1:
        reps = [_one(jobs[0])]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(min(parallel, len(jobs))) as pool:
            reps = pool.map(_one, jobs, chunksize=1)
    for r in reps:
        rep.merge(r)
    return rep
