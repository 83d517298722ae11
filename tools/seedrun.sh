#!/bin/bash
# seedrun.sh ID...: run the check of each planted bug against a scratch copy. Development aid.
cd "$(dirname "$0")/.."
for id in "$@"; do
	p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
	w=/tmp/seedrun_$id; rm -rf "$w"; git clone -q /repo "$w" && git -C "$w" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
	out=$(VP_REPO="$w" timeout 900 python3 run.py "$p" 2>&1); rc=$?
	echo "$id $p rc=$rc $(echo "$out" | grep -m1 VIOLATION)"; echo "$out" | grep -B1 -m2 VIOLATION | head -1 | cut -c1-200
	rm -rf "$w"
done
