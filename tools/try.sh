#!/bin/bash
# usage: try.sh [ID...]: apply each planted bug to ${REPO:-/repo}, run the check of its property (or CHECKS), undo; prints caught/MISSED
cd "$(dirname "$0")/.."
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C ${REPO:-/repo} apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); o=$(VERIF_SEED=${SEED:-1} ./check $c 2>&1); rc=$?
    if [ $rc -eq 1 ] && echo "$o" | grep -q "^VIOLATION property=$c"; then r="caught by $c"; else r="MISSED by $c rc=$rc"; fi
    echo "$b: $r ($(($(date +%s)-s)) s) $(echo "$o" | grep -m1 -A1 '^VIOLATION' | cut -c1-200 | tr '\n' ' ')"
  done
  git -C ${REPO:-/repo} checkout -- .
done
