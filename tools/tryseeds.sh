#!/bin/bash
# tryseeds.sh [ID...]: runs the property's check on a scratch copy with each planted bug
cd "$(dirname "$0")/.."
for id in "${@:-$(ls seeded)}"; do for i in $id; do
	w=$(mktemp -d /tmp/try.XXXXXX); git clone -q /repo "$w/repo" && git -C "$w/repo" apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
	p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
	s=$(date +%s); FV_REPO="$w/repo" FV_EVID="$w/evid" timeout 900 python3 fv/check.py "$p" >"$w/out" 2>&1; rc=$?
	echo "$i: $p rc=$rc $(( $(date +%s) - s ))s $(grep -h ^VIOLATION "$w/out") | $(grep -h '^failed obl' "$w/out" | head -2 | cut -c1-150 | tr '\n' ';') | $(grep -hm1 '^FAIL' "$w/out")"
	rm -r "$w"
done; done
