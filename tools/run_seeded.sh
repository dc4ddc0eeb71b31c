#!/bin/bash
# run_seeded.sh [seed id ...]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s $p APPLY-FAILED"; continue; }
  t0=$SECONDS
  out=$(./run.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$s $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -m1 VIOLATION)"
done
