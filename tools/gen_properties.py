#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
SY = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"
PG = "fluent.pygments/fluent/pygments/"
DC = "fluent.docs/fluent/docs/"


def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": list(observe), "hook_needed": None}})


exec(open(os.path.join(os.path.dirname(__file__), "property_texts.py")).read())
out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
