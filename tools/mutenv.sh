#!/bin/bash
# mutenv.sh: makes /tmp/mr (a copy of /repo) and /tmp/mv (a copy of /verif that checks /tmp/mr), for planting bugs.
rm -rf /tmp/mr /tmp/mv
mkdir /tmp/mr
git -C /repo archive HEAD | tar x -C /tmp/mr
git -C /tmp/mr init -q && git -C /tmp/mr add -A && git -C /tmp/mr -c user.name=x -c user.email=x@x commit -qm base
# keep /repo's mtimes, so that objects stay valid
(cd /repo && find . -type f -not -path './.git/*' -print0 | while IFS= read -r -d '' f; do [ -e "/tmp/mr/$f" ] && touch -r "$f" "/tmp/mr/$f"; done)
cp -a /verif /tmp/mv
rm -rf /tmp/mv/.git /tmp/mv/evidence
find /tmp/mv/build -name '*.d' -exec sed -i 's|/repo/|/tmp/mr/|g' {} +
