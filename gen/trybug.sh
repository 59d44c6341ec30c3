#!/bin/bash
# trybug.sh ID...: runs the property's check (and any extra check ids in $ALSO) against seeded bugs, in /repo, and undoes them.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for c in $p $ALSO; do
    t0=$(date +%s)
    timeout 900 ./check.sh $c quick > /tmp/trybug.$id.$c.log 2>&1; rc=$?
    echo "$id -> $c: rc=$rc $(grep -c '^VIOLATION' /tmp/trybug.$id.$c.log) violations, $(( $(date +%s) - t0 ))s; $(grep 'replay against' /tmp/trybug.$id.$c.log | sort | uniq -c | head -2 | tr '\n' ';')"
  done
  git -C /repo checkout -q -- .
done
