#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (+ not_applicable.json)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
C = json.load(open(V + "/checks.json", encoding="utf-8"))
NA = json.load(open(V + "/not_applicable.json", encoding="utf-8")) if os.path.exists(V + "/not_applicable.json") else []
have = {x["property"] for x in NA} | set(C)
for l in open(V + "/properties.jsonl", encoding="utf-8"):
    i = json.loads(l)["id"]
    if i not in have: NA.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "python3 run_check.py %s --tier quick" % k,
                 "thorough_cmd": "python3 run_check.py %s --tier thorough" % k,
                 "evidence_file": "evidence/%s.json" % k,
                 "technique": c["technique"], "level": c["level"], "level_note": c["note"]} for k, c in sorted(C.items())],
     "not_applicable": NA,
     "notes": "Every check builds /repo's working tree out of tree (harness/CMakeLists.txt), no hooks in /repo are needed."}
json.dump(m, open(V + "/MANIFEST.json", "w", encoding="utf-8"), indent=1, ensure_ascii=False)
