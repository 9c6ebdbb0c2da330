#!/bin/bash
# catch.sh [ID...]: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif || exit 2
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_NO_EVIDENCE=1 timeout 900 bash ./check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -c '^VIOLATION') violation(s): $(echo "$out" | grep '^VIOLATION' | head -3 | sed 's/.*replays.//' | tr '\n' ' ')"
done
