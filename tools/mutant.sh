#!/bin/bash
# mutant.sh FILE PYTHON_REPLACE_FROM PYTHON_REPLACE_TO CHECK [args...]: plants one textual bug in /tmp/mr and runs a check there.
f=$1; from=$2; to=$3; shift 3
cd /tmp/mr && git checkout -q -- . || exit 3
python3 - "$f" "$from" "$to" <<'P' || exit 3
import sys
p,a,b=sys.argv[1:]
s=open(p).read()
if s.count(a)<1: sys.exit("no match in "+p)
s=s.replace(a,b,1); open(p,'w').write(s)
P
cd /tmp/mv
for c in "$@"; do
  REPO=/tmp/mr timeout 900 ./check.sh $c quick > /tmp/mutant.out 2>&1; rc=$?
  echo "$c rc=$rc $(grep -m1 -E 'VIOLATION|ERROR' /tmp/mutant.out) | $(grep -m1 key= /tmp/mutant.out) | $(tail -1 /tmp/mutant.out)"
done
cd /tmp/mr && git checkout -q -- .
