#!/bin/bash
# runseeds.sh [ids...]: applies each planted bug to /repo, runs its property's check, undoes it
cd "${VDIR:-/verif}"
[ -n "$(git -C /repo status --porcelain -uno)" ] && { echo "/repo dirty"; exit 2; }
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s)
  o=$(VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -E 'VIOLATION|ERROR' | head -1) $(echo "$o" | grep -c 'bounded stand-in')"
done
