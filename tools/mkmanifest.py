#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/props.py and properties.jsonl."""
import json
import os
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "lib"))
from props import PROPS  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i not in PROPS:
        na.append(dict(property=i, reason="check not built yet"))
        continue
    p = PROPS[i]
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 check.py {i}",
        thorough_cmd=f"VERIF_TIER=thorough python3 check.py {i}",
        technique="TLA+ specification checked by TLC; recorded executions of the real code validated "
                  "against it, and its behaviours replayed on the real code",
        level="model_checking",
        level_note=p.get("note", "") + " Assumes: " + "; ".join(p["assume"]) + ".",
    ))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="Specification language: TLA+ (spec/), checker: TLC. One driver process per check runs the "
               "real code from /repo/src with the project's interpreter; no hooks in /repo are needed.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
