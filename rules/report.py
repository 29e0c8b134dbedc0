"""Obligations, verdicts, evidence and known findings."""
import ast
import json
import os
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORDER = {"proved": 0, "undecided": 1, "violated": 2}


def snippet(node):
    try:
        s = ast.unparse(node) if isinstance(node, ast.AST) else str(node)
    except Exception:
        s = type(node).__name__
    s = " ".join(s.split())
    return s[:90]


def where(node, fr=None):
    """file:line (function) of a syntax node."""
    mod = getattr(fr, "mod", None)
    rel = getattr(mod, "rel", None) or getattr(mod, "name", "?")
    fn = getattr(getattr(fr, "node", None), "name", "<module>")
    return "%s:%s (%s)" % (rel, getattr(node, "lineno", "?"), fn)


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.obl = {}        # (rule, construct) -> [verdict, n, msg, place]
        self.rules = {}      # rule -> text
        self.counts = {}     # free measured counts
        self.notes = []
        self.assumptions = []
        self.findings = []   # (rule, construct, msg) reported as findings to look up
        self.errors = []
        self.t0 = time.time()

    def rule(self, name, text):
        self.rules[name] = text

    def check(self, ok, rule, construct, msg="", place="", undecided=False):
        """One evaluation of an obligation; the worst one counts."""
        v = "proved" if ok else ("undecided" if undecided else "violated")
        k = (rule, construct)
        cur = self.obl.get(k)
        if cur is None:
            self.obl[k] = [v, 1, "" if ok else msg, place]
        else:
            cur[1] += 1
            if ORDER[v] > ORDER[cur[0]]:
                cur[0], cur[2], cur[3] = v, msg, place
        return ok

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def need(self, cond, what):
        """An anchor that must exist for the check to mean anything."""
        if not cond:
            self.errors.append("anchor missing: " + what)

    def merge(self, other):
        for k, (v, n, m, p) in other.obl.items():
            cur = self.obl.get(k)
            if cur is None:
                self.obl[k] = [v, n, m, p]
            else:
                cur[1] += n
                if ORDER[v] > ORDER[cur[0]]:
                    cur[0], cur[2], cur[3] = v, m, p
        self.rules.update(other.rules)
        for k, n in other.counts.items():
            self.counts[k] = self.counts.get(k, 0) + n
        for s in other.notes:
            self.note(s)
        for s in other.assumptions:
            if s not in self.assumptions:
                self.assumptions.append(s)
        self.errors += other.errors


def load_known():
    """known_findings.txt: 'finding: property=<id> rule=<rule> construct=<construct> :: <text>'."""
    out = []
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as fh:
        for line in fh:
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("::")
            d = {}
            rest = head.strip()
            for key in ("property=", "rule=", "construct="):
                i = rest.index(key)
                d[key[:-1]] = rest[i + len(key):].split(" rule=")[0].split(" construct=")[0].strip()
                rest = rest[i + len(key):]
            d["text"] = text.strip()
            out.append(d)
    return out


def finish(rep, tier, level, explanation, seed, extra_assumptions=()):
    """Print verdicts, write evidence, return the exit code."""
    prop = rep.prop
    known = [k for k in load_known() if k["property"] == prop]
    viol, kf = [], []
    for (rule, con), (v, n, msg, place) in sorted(rep.obl.items()):
        if v != "violated":
            continue
        hit = [k for k in known if k["rule"] == rule and k["construct"] == con]
        if hit:
            kf.append((rule, con, hit[0]["text"]))
        else:
            viol.append((rule, con, msg, place))
    if rep.errors:
        for e in rep.errors:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
    nob = len(rep.obl)
    proved = sum(1 for v in rep.obl.values() if v[0] == "proved")
    und = sorted((k, v) for k, v in rep.obl.items() if v[0] == "undecided")
    wall = round(time.time() - rep.t0, 2)
    samples = {}
    for (rule, con), v in sorted(rep.obl.items()):
        samples.setdefault(rule, []).append({"construct": con, "verdict": v[0], "evaluations": v[1]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": explanation,
            "rules": rep.rules,
            "obligations": nob, "proved": proved, "undecided": len(und),
            "violated": len(viol), "known_findings": len(kf),
            "evaluations": sum(v[1] for v in rep.obl.values()),
            "counts": rep.counts,
            "obligations_by_rule": {r: len(s) for r, s in samples.items()},
            "obligation_list": samples,
            "undecided_list": [{"rule": k[0], "construct": k[1], "reason": v[2], "at": v[3]} for k, v in und][:200],
            "notes": rep.notes,
        },
        "wall_s": wall,
        "assumptions": list(rep.assumptions) + list(extra_assumptions),
        "violations": [{"rule": r, "construct": c, "message": m, "at": p} for r, c, m, p in viol],
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True, default=str)
    print("%s: %d obligations, %d proved, %d undecided, %d known, %d violated (%.1f s)" % (
        prop, nob, proved, len(und), len(kf), len(viol), wall))
    for r, c, t in kf:
        print("KNOWN-FINDING: property=%s %s [%s: %s]" % (prop, t, r, c))
    if viol:
        rp = os.path.join(d, "replay-%s.txt" % prop)
        with open(rp, "w", encoding="utf-8") as fh:
            for r, c, m, p in viol:
                fh.write("%s\n  rule: %s\n  construct: %s\n  at: %s\n  %s\n\n" % (prop, rep.rules.get(r, r), c, p, m))
        for r, c, m, p in viol[:40]:
            print("  [%s] %s at %s: %s" % (r, c, p, m))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if rep.errors:
        return 2
    return 0
