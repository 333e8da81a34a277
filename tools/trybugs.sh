#!/bin/bash
# trybugs.sh [ids...] : apply each planted bug to /repo, run its property's check, undo
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  out=$(./check $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -A1 '^  case' | tail -1 | cut -c1-150)"
done
