#!/bin/bash
# tools/plant.sh ID [notest]  : confirm /verif/seeded/ID (patch applied to /repo, build, tests, demo, check), then undo
D=/verif/seeded/$1
cd /repo || exit 2
[ -n "$(git status --porcelain)" ] && { echo "repo not clean"; exit 2; }
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
( bash $D/demo.sh >/tmp/w/demo0.log 2>&1 ); echo "demo clean: $?"
git apply $D/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/w/b.log 2>&1 || echo "BUILD FAILS"
( bash $D/demo.sh >/tmp/w/demo1.log 2>&1 ); echo "demo patched: $?  $(tail -1 /tmp/w/demo1.log | head -c 200)"
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/w/o.json > /tmp/w/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/o.json'))
exp=b.get('stable') or b.get('passed') or b.get('tests')
miss=[t for t in exp if t not in o['passed']]
print('stable tests failing:',miss)
P
fi
cd /verif && timeout 900 ./check $P | tail -4
