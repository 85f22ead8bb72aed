#!/bin/bash
# Development tool: run the check of each named planted bug (all when none is named) with the bug applied to /repo.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: patch does not apply"; continue; }
  out=$( (timeout -k 2 600 python3-vt run.py $p </dev/null) 2>&1 ); rc=$?
  git -C /repo checkout -q -- .
  echo "$s: $p exit $rc: $(echo "$out" | grep VIOLATION | cut -c1-120) | $(echo "$out" | grep -m1 -i 'obligation\|failed' | cut -c1-160)"
done
