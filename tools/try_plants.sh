#!/bin/bash
# Author tool: apply each planted bug to /repo, run its property's check, undo.  try_plants.sh [id...]
cd /verif
ids=("$@"); [ ${#ids[@]} -eq 0 ] && ids=($(ls seeded))
[ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 2; }
for id in "${ids[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$CHECK" ] && p=$CHECK
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} python3 mon/run.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  v=$(echo "$out" | grep -m1 VIOLATION)
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s ${v:0:200}"
  [ $rc -gt 1 ] && echo "$out" | tail -5
done
