#!/bin/sh
# Applies each planted bug (or those named), runs its check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  python3 tools/check.py $p > /tmp/seed-$d.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -c '^VIOLATION' /tmp/seed-$d.log) $(grep '^VIOLATION' /tmp/seed-$d.log | grep -c no-failing) | $(tail -1 /tmp/seed-$d.log | cut -c1-110) | $(grep -A1 VIOLATION /tmp/seed-$d.log | tail -1 | cut -c1-120)"
done
