#!/bin/bash
# runseeds.sh [ID...]: apply each planted change to the code ($VERIF_REPO, by default /repo), run its
# property's check, undo
R=${VERIF_REPO:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
o=$(mktemp -d)
cd $V/seeded || exit 1
for id in ${@:-*}; do
  prop=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C $R apply $V/seeded/$id/patch.diff || { echo "$id APPLY FAILED"; continue; }
  (cd $V && timeout 900 python3 bin/check.py $prop quick > $o/out 2>$o/err); rc=$?
  git -C $R checkout -q -- .
  echo "$id $prop rc=$rc $(grep -c '^VIOLATION' $o/out) $(head -1 $o/out | cut -c1-100)"
done
