#!/bin/bash
# catch.sh SEED...: applies each seeded change to /repo, runs its property's quick check, undoes it.
for id in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  S=$(date +%s)
  (cd /verif && VERIF_TIER=quick python3 check.py $P >/tmp/catch.$id 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id: $P rc=$rc $(( $(date +%s)-S ))s $(grep -E '^VIOLATION' /tmp/catch.$id | head -1)"
done
