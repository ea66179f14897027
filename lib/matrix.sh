#!/bin/bash
# matrix.sh [ids...]: runs each planted change's check against /repo with the change applied, then undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  t0=$SECONDS
  out=$(python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((SECONDS-t0))s | $(echo "$out" | grep -E '^(VIOLATION|FAILED|BOUNDED|FAILING)' | cut -c1-160 | tr '\n' '|')"
done
