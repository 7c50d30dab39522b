#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NA, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].rstrip(".").count(". ") <= 2, (p["id"], "sentences")
        rec = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }
        f.write(json.dumps(rec) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
        "technique": p.get("tech", "stateless model checking of the real code: exhaustive enumeration of bounded operation histories against a reference model"),
        "level": "model_checking",
        "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na, "notes": NOTES}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
