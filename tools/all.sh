#!/bin/bash
# run the quick check of every claimed property, one line each
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c "import json;print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s.%N)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick 2>&1); rc=$?
  printf '%s rc=%s %.1fs %s\n' $p $rc "$(echo "$(date +%s.%N)-$s"|bc)" "$(echo "$out" | tail -1 | cut -c1-150)"
done
