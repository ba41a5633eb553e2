#!/bin/bash
# catch.sh [ID...]: runs the check of its property against each planted change (quick tier)
cd /verif/seeded || exit 2
[ $# -gt 0 ] || set -- *
for id; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  bash /verif/check.sh $p > /tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -a '^VIOLATION' /tmp/catch.$id.log | head -1)"
done
