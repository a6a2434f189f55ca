#!/bin/bash
# confirms a planted change in a scratch copy: builds, passes the stable tests, its demonstration fails with it and passes without it
# usage: try_bug.sh ID [notest]
set -u
W=/tmp/sb/work
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1
if [ ! -d $W ]; then
    mkdir -p /tmp/sb; git clone -q /repo $W
fi
for f in build test; do
    sed 's#/repo#/tmp/sb/work#g; s#/opt/vp/build.sh#/tmp/sb/build.sh#g' /opt/vp/$f.sh | sed "s/timeout 600/timeout 200/" > /tmp/sb/$f.sh
done
cd $W
git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD
bash /tmp/sb/build.sh > /tmp/sb/build.log 2>&1 || { echo "clean build failed"; exit 1; }
if ! timeout 300 bash $S/demo.sh > /tmp/sb/demo0.log 2>&1; then echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/sb/demo0.log; exit 1; fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
bash /tmp/sb/build.sh > /tmp/sb/build.log 2>&1 || { echo "does not build"; tail -5 /tmp/sb/build.log; git reset -q --hard; exit 1; }
timeout 300 bash $S/demo.sh > /tmp/sb/demo1.log 2>&1; rc=$?
echo "demo with the change: rc=$rc: $(tail -1 /tmp/sb/demo1.log)"
if [ "${2:-}" != notest ]; then
    bash /tmp/sb/test.sh /tmp/sb/out.json > /tmp/sb/test.log 2>&1
    python3 - <<'PY'
import json
b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o = set(json.load(open("/tmp/sb/out.json"))["passed"])
print("stable tests failing:", sorted(b - o) [:5], len(b - o))
PY
fi
git reset -q --hard
