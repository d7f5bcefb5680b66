#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
notes = {}
p = os.path.join(V, "tools", "level_notes.json")
if os.path.exists(p):
    notes = json.load(open(p))
cs, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if i in checks.CHECKS:
        cs.append({"property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
                   "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": "TLA+ specification, TLC model checking and trace validation of the real code",
                   "level": "model_checking",
                   "level_note": (notes[i]["spec"] + " Bounds: " + notes[i]["bounds"]).replace("`", "") if i in notes else ("TLC checks the design model exhaustively within small constants and validates recorded executions of the real code against the specification.")})
    else:
        na.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": cs, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(cs), "checks", len(na), "not applicable")
