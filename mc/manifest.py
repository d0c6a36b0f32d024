#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a property)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE = "model_checking", "fault_enumeration"
T = {}
exec(open(os.path.join(here, "mc", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
checks = []
for p in props:
    i = p["id"]
    if i not in T:
        continue
    level, technique, note = T[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": technique, "level": level, "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in T]
json.dump({"version": 1, "setup_cmd": "bash mc/build.sh",
           "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's working tree with a generated go build -overlay (mc/prep) that puts an in-memory file system in the place of package os", "source_commits": []},
           "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
