#!/usr/bin/env python3
"""writes MANIFEST.json from run/units.json and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cfg = json.load(open(V + "/run/units.json"))
na = json.load(open(V + "/run/not_applicable.json"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
checks = []
for p in props:
    if p not in cfg["props"]:
        assert p in na, p
        continue
    c = cfg["props"][p]
    checks.append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 run/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run/check.py " + p,
                   "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from the source on every run"),
                   "level": c.get("level", "proof"), "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bash run/setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": na[p]} for p in props if p not in cfg["props"]],
     "notes": "No hooks in /repo: private functions are reached by extracting their text, and the harnesses use public interfaces only."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
