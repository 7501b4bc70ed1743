#!/bin/bash
# seeds.sh [ID...]: each planted change against the quick check of its property (in /repo, undone at once)
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$SECONDS
  out=$(VERIF_TIER=quick VERIF_SEED=1 timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -c '^VIOLATION') | $(echo "$out" | grep '\[' | head -1 | cut -c1-130)"
done
