#!/bin/bash
# dev helper: apply seeded/$1 to /repo, build, run tests + demo + the property's check, undo. Usage: seedtest.sh ID [nocheck|notest]
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; [ -n "$(git status --porcelain -uno)" ] && { echo "repo dirty"; exit 1; }
bash /opt/vp/build.sh >/tmp/seed_b0.log 2>&1; bash $S/demo.sh >/tmp/seed_d0.log 2>&1; echo "$1 [$P] demo clean rc=$?"
git apply $S/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/seed_b.log; }
[ "$2" != notest ] && bash /opt/vp/test.sh /tmp/seed_o.json 2>/dev/null | grep -E "[0-9]+ passed"
bash $S/demo.sh >/tmp/seed_d.log 2>&1; echo "$1 demo patched rc=$?"
if [ "$2" != nocheck ]; then (cd /verif; timeout -k 5 900 python3 tools/check.py $P --tier quick >/tmp/seed_c.log 2>&1; echo "$1 check rc=$? $(grep -c ^VIOLATION /tmp/seed_c.log) violations"; grep -A1 ^VIOLATION /tmp/seed_c.log | head -4; tail -1 /tmp/seed_c.log); fi
git checkout -q -- .; bash /opt/vp/build.sh >/tmp/seed_b0.log 2>&1
