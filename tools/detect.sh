#!/bin/bash
# runs a check against a planted change, in a scratch copy: detect.sh ID [PROPERTY]
V=$(cd "$(dirname "$0")/.." && pwd); W=/tmp/sb/det; [ -d $W ] || git clone -q /repo $W
cd $W && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git apply $V/seeded/$1/patch.diff || exit 3
P=${2:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $V/seeded/$1/meta.json)}
cd $V && VERIF_REPO=$W python3 check.py $P > /tmp/sb/det.log 2>&1; rc=$?
echo "$1 $P rc=$rc $(grep -E 'VIOLATION' /tmp/sb/det.log | head -1)"; grep -iE '^ *(class|message)|violat' /tmp/sb/det.log | head -3
cd $W && git reset -q --hard
