#!/bin/bash
# catch.sh ID..: run the property's check on a scratch copy of /repo with the planted bug applied (development aid)
for ID in "$@"; do
S=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=/tmp/catchwork; mkdir -p $W; rm -rf /tmp/catchwork/src; cp -r /repo/src /repo/tests /repo/Cargo.toml /repo/Cargo.lock $W/ ; [ -d /tmp/catchwork/.git ] || git -C $W init -q
(cd $W && git apply $S/patch.diff) || { echo "$ID no apply"; continue; }
t=$(date +%s)
VX_REPO=$W VX_BUILD=/tmp/catchbuild VX_EVIDENCE=/tmp/catchbuild/evidence python3 /verif/tools/check.py $P quick > /tmp/catch.$ID 2>&1; rc=$?
echo "$ID: rc=$rc $(($(date +%s)-t))s $(grep -h 'VIOLATION' /tmp/catch.$ID)"
grep -h 'unit .*: \|failing input\|failed oblig\|replay' /tmp/catch.$ID | cut -c1-230
done
