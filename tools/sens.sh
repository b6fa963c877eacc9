#!/bin/bash
# sens.sh [ID...]: runs each seeded change against its property's quick check (applies to /repo and undoes it)
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t0=$SECONDS
  out=$(VERIF_SEED=1 VERIF_TIER=quick ./run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -c "VIOLATION property=$p ") violations"
done
