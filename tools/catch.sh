#!/bin/bash
# catch.sh [seed ...]: apply each planted bug to /repo, run the check of its property, undo.
cd "$(dirname "$0")/.." || exit 3
for s in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$SECONDS
  out=$(timeout 900 ./check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $prop rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-160)"
done
