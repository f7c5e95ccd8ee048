#!/bin/bash
# seedtest.sh ID...: in /tmp/sr (a clone of /repo) and /tmp/sv (a copy of /verif), confirms that each planted bug builds,
# passes the repository's tests and fails its demonstration (which passes without it), and runs the check of its property.
[ -d /tmp/sr ] || git clone -q /repo /tmp/sr
git -C /tmp/sr checkout -q -- . && git -C /tmp/sr pull -q
mkdir -p /tmp/svp /tmp/sv
for f in build.sh test.sh run_tests.py results.py; do sed 's#/repo\b#/tmp/sr#g; s#/opt/vp/\(build.sh\|run_tests.py\|results.py\)#/tmp/svp/\1#g' /opt/vp/$f > /tmp/svp/$f; done
cp -r /opt/vp/BASELINE.json /tmp/svp/
rsync -a --exclude build --exclude .git --exclude evidence --exclude replays /verif/ /tmp/sv/ 2>/dev/null || (cd /verif && tar c --exclude=./build --exclude=./.git --exclude=./evidence --exclude=./replays . | tar x -C /tmp/sv)
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /tmp/sr checkout -q -- .
  (cd /tmp/sr && bash $d/demo.sh > /tmp/svp/demo0.log 2>&1); d0=$?
  git -C /tmp/sr apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  t="skipped"
  if [ -z "$NOTEST" ]; then
    bash /tmp/svp/test.sh /tmp/svp/o.json > /tmp/svp/t.log 2>&1
    t=$(python3 - <<'P'
import json
o=json.load(open('/tmp/svp/o.json')); b=json.load(open('/tmp/svp/BASELINE.json'))
names=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
bad=[n for n in names if n not in set(o['passed'])]
print("tests %d/%d %s"%(len(names)-len(bad),len(names),bad[:3]))
P
)
  fi
  (cd /tmp/sr && bash $d/demo.sh > /tmp/svp/demo1.log 2>&1); d1=$?
  r=""
  for c in $prop $ALSO; do
    (cd /tmp/sv && REPO=/tmp/sr timeout 900 ./check.sh $c quick > /tmp/svp/$id.$c.log 2>&1); rc=$?
    r="$r $c:rc=$rc $(grep -m1 -E '^VIOLATION|^ERROR' /tmp/svp/$id.$c.log | cut -c1-60)"
  done
  echo "$id: demo unpatched=$d0 patched=$d1; $t; check$r"
done
git -C /tmp/sr checkout -q -- .
