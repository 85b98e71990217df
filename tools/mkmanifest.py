"""Writes MANIFEST.json for the properties that have a check."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if not os.path.exists(os.path.join(V, "props", p.lower() + ".py")):
        na.append({"property": p, "reason": "the check is not written yet"})
        continue
    P = importlib.import_module("props." + p.lower()).PROP
    cmd = "python3 run.py check " + p
    checks.append({"property": p, "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "evidence_file": "evidence/%s.json" % p,
                   "technique": getattr(P, "TECHNIQUE", "property-based testing (Hypothesis) against a reference model"),
                   "level": "exploration", "level_note": getattr(P, "NOTE", P.RULE)})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
