#!/bin/bash
# tryseed.sh ID... : runs the check of each planted bug's property against it
for id in "$@"; do
  D=/verif/seeded/$id
  P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && timeout 900 bin/check $P 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id ($P): rc=$rc $(echo "$out" | grep -m1 VIOLATION)"
  echo "$out" | grep "failed obl" | head -${VERB:-3}
done
