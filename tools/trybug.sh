#!/bin/bash
# apply each named seeded change to /repo, run its property's check, undo
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  out=$(cd /verif && ./check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$out" | grep VIOLATION) $(echo "$out" | grep -o '[0-9.]*s$' | head -1)"
done
