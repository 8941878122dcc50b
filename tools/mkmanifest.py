#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, TECH

with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        r = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "state": [], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(r) + "\n")
checks = []
for p in PROPS:
    if p.get("claimed", os.path.exists(V + "/drivers/%s.py" % p["id"])):
        checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"], "thorough_cmd": "./check %s thorough" % p["id"],
                       "technique": p.get("technique", TECH), "level": p["level"], "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p["id"], "reason": p.get("na", "not built yet")} for p in PROPS if not any(c["property"] == p["id"] for c in checks)]}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
