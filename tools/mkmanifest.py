#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        note = "Exhaustive within: " + c["bounds"] + ". Runs the real code, compiled from /repo, against a reference " \
               "model written in the harness." + \
               ("" if not c["assumptions"] else " Assumes: " + " ".join(c["assumptions"]))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": c.get("technique", "bounded exhaustive exploration of the real code (explicit-state, "
                                                       "stateless search) against a reference model"),
                       "level": c["level"], "level_note": note})
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "No check built yet.")})
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harnesses compile the unmodified sources."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [n["property"] for n in na])
