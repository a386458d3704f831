#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks registered in run/check.py and notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/run"); sys.path.insert(0, V + "/gen")
import check
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NA = {}
TECH = "TLA+ model checking (TLC) and trace validation of the real code against the same specification"
NOTE = json.load(open(V + "/tools/notes.json"))
m = {"version": 1, "setup_cmd": "python3 run/check.py build",
     "checks": [], "not_applicable": []}
for p in props:
    if p in check.PROPS:
        m["checks"].append({"property": p, "quick_cmd": "python3 run/check.py %s quick" % p,
            "thorough_cmd": "python3 run/check.py %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
            "technique": TECH, "level": "model_checking", "level_note": NOTE.get(p, "see DESIGN.md")})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json"))); print("valid")
except ImportError: pass
print(len(m["checks"]), "checks;", [x["property"] for x in m["not_applicable"]])
