#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, rules/registry.py and the lists below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from rules import registry  # noqa: E402

NA = registry.NOT_APPLICABLE

ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for i in ids:
    if i in registry.RULES:
        mod, fn, expl = registry.RULES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s --tier quick" % i,
            "thorough_cmd": "python3 check.py %s --tier thorough" % i,
            "technique": registry.TECH.get(i, "static analysis: " + expl.split(";")[0]),
            "level": "other",
            "level_note": registry.LEVEL_NOTE.get(mod, registry.LEVEL_NOTE["*"]),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no static check built yet for this property")})
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as fh:
    json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q sa rules || true", "checks": checks,
               "not_applicable": na}, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
