#!/bin/bash
# Builds /repo and runs its tests.
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
timeout ${T:-300} bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1 || { echo "rc $?"; pkill -f slinky_builder_; }
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
names=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
bad=[n for n in names if n not in set(o['passed'])]
print("tests %d/%d %s"%(len(names)-len(bad),len(names),bad[:5]))
P
