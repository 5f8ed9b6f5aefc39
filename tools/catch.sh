#!/bin/bash
# catch.sh [ID...]: run each planted bug's own check against it (development only).
cd /verif
[ $# -gt 0 ] || set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  t=$SECONDS
  timeout 900 ./check.py $p > /tmp/w/catch.out 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$b $p exit=$c $((SECONDS-t))s $(grep -ah '^what:' /tmp/w/catch.out | head -1 | cut -c1-160)"
done
