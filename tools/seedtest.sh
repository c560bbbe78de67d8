#!/bin/bash
# seedtest.sh [ID..]: apply each planted bug to /repo, run its property's quick check, undo it
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p > work/seed-$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(grep VIOLATION work/seed-$i.log) | $(grep -E '^(failed obligation|undecided|no verdict)' work/seed-$i.log | head -2 | cut -c1-150 | tr '\n' ';')"
done
