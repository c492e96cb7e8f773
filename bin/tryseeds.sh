#!/bin/bash
# tryseeds.sh [ids...]: each planted bug against the quick check of its property (development aid; uses /repo)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id $p APPLY-FAILED"; continue; }
  t0=$SECONDS
  out=$(VERIF_SEED=${VERIF_SEED:-1} timeout 900 python3 bin/check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | tail -1 | cut -c1-150)"
done
