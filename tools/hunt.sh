#!/bin/bash
# Development aid (no check uses it): applies each planted bug to /repo, runs its property's quick check
# (or the checks named in CHECKS) and undoes it. usage: hunt.sh [ID...]
cd "$(dirname "$0")/.." || exit 9
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo checkout -q -- .
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$(date +%s)
    HV_EVIDENCE=/tmp/hunt.json timeout 900 ./check.sh $c ${TIER:-quick} > /tmp/hunt.out 2>&1; rc=$?
    echo "$id [$prop] $c rc=$rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/hunt.out | cut -c1-160)"
  done
  git -C /repo checkout -q -- .
done
