#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's check, undo
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || continue
  python3-vt check.py $p > /tmp/catch.$id 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(grep VIOLATION /tmp/catch.$id | head -1 | grep -o 'no-failing-input-found')" "$(grep -o 'FAIL.*' /tmp/catch.$id | head -1 | cut -c1-200)"
done
