#!/bin/bash
# tools/seeded.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo it, and report.
cd "$(dirname "$0")/.." || exit 1
[ -z "$(git -C /repo status --porcelain)" ] || { echo '/repo is not clean'; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s); out=$(./run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 -- '^--- ' | cut -c1-160)"
done
