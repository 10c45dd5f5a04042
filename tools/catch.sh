#!/bin/bash
# catch.sh ID [PROP..]: apply to /repo, run checks, undo
ID=$1; shift
P=${@:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
cd /repo && git apply /verif/seeded/$ID/patch.diff || exit 1
for p in $P; do (cd /verif && timeout 900 ./check.sh $p > /tmp/catch.out 2>&1; echo "$ID $p exit=$?"; grep -a "VIOLATION" -A1 /tmp/catch.out | cut -c1-260 | head -${LINES_N:-4}); done
git -C /repo checkout -q -- .
