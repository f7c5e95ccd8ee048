#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of built checks."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
# property -> (technique, note)
BUILT = {}
exec(open(os.path.join(root, "tools", "built.py")).read())
m = {"version": 1, "setup_cmd": "make -s -j8 all", "hooks": {"guard": "SLINKY_VERIF",
  "enable": "the Makefile compiles every source with -DSLINKY_VERIF", "source_commits": ["4918a592d5c8ff7009ba4cab6f59e412d1fb075c"]}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in BUILT:
        t, n = BUILT[i]
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
