#!/bin/bash
# tryseed.sh ID... : applies each planted bug to /repo, runs the quick check of its property, and undoes it
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i does not apply"; continue; }
  s=$(date +%s); python3 /verif/bin/check.py $p quick > /tmp/ts_$i.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$i $p exit $r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/ts_$i.log)"
done
