#!/bin/bash
# tryseed.sh ID...: apply the planted bug to /repo, run its property's quick check, undo (development helper)
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); timeout 900 python3-vt check.py $p --tier quick > /tmp/try_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id rc=$rc $(( $(date +%s)-s ))s: $(grep -c '^VIOLATION' /tmp/try_$id.log) violations; $(grep '^VIOLATION' /tmp/try_$id.log | head -2 | cut -c1-160 | tr '\n' ';')"
done
