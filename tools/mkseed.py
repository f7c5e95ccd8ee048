#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec file that defines SEEDS, a list of dicts with
id, property, file, edits [(old, new)], needs, breaks, demo (C++ source), sources (files of slinky compiled with the demo)."""
import sys, os, json, subprocess, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
only = set(sys.argv[2:])
ALL = "$(ls slinky/base/*.cc slinky/runtime/*.cc slinky/builder/*.cc | grep -v visualize)"
for s in spec["SEEDS"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/w/mkseed_repo"
    if not os.path.isdir(wt): subprocess.check_call(["git", "clone", "-q", "/repo", wt])
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."]); subprocess.check_call(["git", "-C", wt, "pull", "-q"])
    for e in s["edits"]:
        f, old, new = e if len(e) == 3 else (s["file"],) + tuple(e)
        p = os.path.join(wt, f); t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", wt, "diff"], text=True))
    subprocess.check_call(["git", "-C", wt, "checkout", "-q", "--", "."])
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cc", "w").write(s["demo"])
    srcs = s.get("sources", "ALL")
    srcs = ALL if srcs == "ALL" else srcs
    open(d + "/demo.sh", "w").write(f"""#!/bin/bash
# Run with the repository as working directory: exit 0 if the property holds for the demonstrated case.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
n=0
for f in "$d/demo.cc" {srcs}; do
  n=$((n+1))
  g++ -std=c++17 -O1 -g -I. {s.get("flags","")} -c "$f" -o "$t/$n.o" &
done
wait
g++ {s.get("flags","")} "$t"/*.o -o "$t/demo" -lpthread || exit 2
timeout {s.get("timeout",60)} "$t/demo"
""")
    print(s["id"])
