#!/bin/bash
# usage: tools/runseed.sh <id>...  run the property's check on /repo with the planted bug applied, then undo
for id in "$@"; do
D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo apply $D/patch.diff || continue
t0=$(date +%s)
cd /verif; python3-vt check.py $P --tier quick > /tmp/runseed.$id.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "$id $P rc=$rc $(( $(date +%s) - t0 ))s $(grep -m1 VIOLATION /tmp/runseed.$id.log)"
done
