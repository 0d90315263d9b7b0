#!/bin/bash
# tryseed.sh NAME [CHECKS...] : demo without and with the patch, and the checks with it (on /repo, undone afterwards).
V="$(cd "$(dirname "$0")/.." && pwd)"; N="$1"; shift; D="$V/seeded/$N"
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash "$D/demo.sh" >/tmp/demo.out 2>&1; echo "demo clean: $?"; tail -3 /tmp/demo.out
git apply "$D/patch.diff" || exit 1
bash "$D/demo.sh" >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo.out
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "BUILD FAILED"; /tmp/t.sh; fi
for c in ${@:-$P}; do (cd "$V" && ./run.sh $c quick 2>&1 | tail -4 | cut -c1-300); done
git checkout -- .
