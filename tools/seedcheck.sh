#!/bin/bash
# seedcheck.sh [ID...]: runs the property's check against planted bugs.
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  t=$(date +%s); python3 check.py $p > /tmp/sc.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION property='$p' ' /tmp/sc.out) $(( $(date +%s) - t ))s"
done
