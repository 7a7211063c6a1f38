#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.path.insert(0, root)
from props import PROPS
with open(root + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": ", ".join(p["files"])}]}}) + "\n")
import checks
man = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for p in PROPS:
    c = checks.CHECKS.get(p["id"])
    if not c:
        man["not_applicable"].append({"property": p["id"], "reason": checks.NOT_APPLICABLE.get(p["id"], "check not built yet")})
        continue
    man["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 run.py check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["technique"], "level": "exploration", "level_note": c["note"]})
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(PROPS), "properties,", len(man["checks"]), "checks")
