#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, subprocess
from props import PROPS
from checks import CHECKS, NOT_APPLICABLE, HOOKS
with open("properties.jsonl", "w") as f:
    for q in PROPS:
        f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
if HOOKS:
    m["hooks"] = HOOKS
for q in PROPS:
    i = q["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py check %s quick" % i, "thorough_cmd": "python3 run.py check %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": q["_technique"], "level": CHECKS[i]["level"], "level_note": q["_note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
for q in PROPS:
    assert len(q["title"]) <= 80, q["id"]
