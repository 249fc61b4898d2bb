#!/bin/bash
# Runs the check of each seeded bug's property against /repo with the bug applied. usage: runseeds.sh [id ...]
cd /verif
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo is not clean"; exit 2; }
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  o=$(timeout 900 bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -c '^VIOLATION') $(echo "$o" | grep -v VIOLATION | head -1 | cut -c1-150)"
done
