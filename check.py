#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decide one property by static analysis of /repo."""
import argparse
import importlib
import os
import sys
import traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(40000)

from rules import registry  # noqa: E402
from rules.report import finish  # noqa: E402
from sa.project import AnalysisBroken  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    spec = registry.RULES.get(a.prop)
    if spec is None:
        print("unknown property", a.prop)
        return 2
    mod, fn, explanation = spec
    try:
        rep = getattr(importlib.import_module("rules." + mod), fn)(a.tier)
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (a.prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % a.prop)
        return 2
    rep.prop = a.prop
    return finish(rep, a.tier, "other", explanation, int(os.environ.get("VERIF_SEED", "1")))


if __name__ == "__main__":
    sys.exit(main())
