#!/bin/bash
# seedcheck.sh ID...: apply planted bug to /repo, run its property's check, undo
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NOAPPLY"; continue; }
  python3 run.py $p --no-evidence > /tmp/sc.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/sc.out; then echo "$id $p CAUGHT: $(grep -B1 '^VIOLATION' /tmp/sc.out | head -1 | cut -c1-150)"; else echo "$id $p MISSED rc=$rc"; tail -3 /tmp/sc.out; fi
done
