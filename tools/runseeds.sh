#!/bin/bash
# runseeds.sh [ID...]: the check of each planted bug's property with the bug
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  grep -q "\"property_id\": \"$p\"\|\"property\": \"$p\"\|\"id\": \"$p\"" MANIFEST.json || { echo "$s: $p not claimed"; continue; }
  git -C /repo apply /verif/seeded/$s/patch.diff || continue
  out=$(python3-vt check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s: rc=$rc $(echo "$out" | grep VIOLATION | head -2 | tr '\n' ' ')"
done
