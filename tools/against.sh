#!/bin/bash
# against.sh REPO NAME ids... : runs quick checks of a copy of this tree against another copy of the repository (for trying edits).
R=$1; N=$2; shift 2
D=/tmp/vc_$N; [ -d "$D" ] || { mkdir "$D"; cp -a /verif/target "$D/"; }
rm -rf "$D/harness"; cp -a /verif/check.sh /verif/harness /verif/known_findings.txt /verif/properties.jsonl "$D"/
mkdir -p "$D/evidence" "$D/work" "$D/replays"
grep -rl '/repo' "$D/check.sh" "$D/harness/Cargo.toml" "$D/harness/src" | xargs sed -i "s#/repo#$R#g"
cd "$D"
for i in "$@"; do s=$(date +%s); timeout 900 ./check.sh run $i > work/run_$i.log 2>&1; rc=$?; e=$(date +%s); printf '%s rc=%s %ss %s\n' $i $rc $((e-s)) "$(grep -m1 VIOLATION work/run_$i.log)"; done
