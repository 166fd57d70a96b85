#!/bin/bash
# for each seeded change: apply to /repo, run the check of its property, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  s=$(date +%s)
  python3-vt run.py $p --tier ${TIER:-quick} > /tmp/seed_$d.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s) - s ))s $(grep -c VIOLATION /tmp/seed_$d.log) $(grep VIOLATION /tmp/seed_$d.log | head -1 | cut -c1-120)"
done
