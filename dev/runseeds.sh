#!/bin/bash
# development aid: runs the check of each planted bug against it, one after another
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  o=$(python3 check.py $p 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$d rc=$r $(echo "$o" | grep -c no-failing) $(echo "$o" | tr '\n' ' ' | cut -c1-420)"
done
