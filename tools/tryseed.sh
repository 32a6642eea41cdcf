#!/bin/bash
# tryseed.sh <id> [nocheck]: the seeded change in /verif/seeded/<id> against /repo: builds, tests, demo, check; undone afterwards.
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "dirty /repo"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" != check ]; then bash "$S/demo.sh" > /tmp/demo.out 2>&1; echo "demo unchanged: $?"; fi
trap 'git -C /repo checkout -- .' EXIT
git apply "$S/patch.diff" || exit 2
if [ "$2" != check ]; then
bash /opt/vp/build.sh > /tmp/b.out 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.out 2>&1; echo "tests: $(cat /tmp/t.json)"
bash "$S/demo.sh" > /tmp/demo2.out 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo2.out
fi
if [ "$2" != nocheck ]; then (cd $V; for p in $P $3; do timeout 900 bin/check $p quick 2>&1 | grep -v "^\[" | cut -c1-220 | head -8; echo "check $p: ${PIPESTATUS[0]}"; done); fi
