#!/bin/bash
# tools/catches.sh [ID...]: which planted bugs do the checks report? (development tool)
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  out=$(bin/check $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i: exit $rc $(echo "$out" | grep -m1 -B2 VIOLATION | head -1 | cut -c1-150)"
done
