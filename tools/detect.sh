#!/bin/bash
# detect.sh [id...]: applies each seeded bug to /repo, runs its property's quick check, undoes it, prints what happened.
cd /verif
ids="$*"; [ -z "$ids" ] && ids=$(ls seeded)
for b in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  ./check.sh run $p > work/detect.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " work/detect.out; then echo "$b $p caught ($(grep -o 'evaluations.*\|[0-9]* cases.*' work/detect.out | tail -1))"; else echo "$b $p MISSED rc=$rc"; fi
  rm -f replays/*
done
