#!/bin/bash
# detect.sh <id>...: applies each planted bug to /repo, runs its property's quick check, undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  props=${PROPS:-$p}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for q in $props; do
    s=$(date +%s); timeout 900 ./run.sh $q quick >/tmp/det.out 2>&1; rc=$?
    echo "$id: $q exit $rc, $(grep -c ^VIOLATION /tmp/det.out) violations, $(( $(date +%s) - s )) s"; [ $rc = 1 ] || tail -3 /tmp/det.out
  done
  git -C /repo checkout -q -- .
done
