#!/bin/bash
# detect2.sh [id...]: like detect.sh, but applies each seeded bug to a copy of /repo, so that /repo is left alone.
R=/tmp/bugrepo
[ -d $R ] || cp -a /repo $R
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  git -C $R checkout -q -- . && git -C $R apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  o=$(/verif/tools/against.sh $R bug $p)
  case "$o" in *"rc=1"*"VIOLATION property=$p "*) echo "$b caught: $o";; *) echo "$b MISSED: $o";; esac
done
git -C $R checkout -q -- .
