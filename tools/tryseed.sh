#!/bin/bash
# tools/tryseed.sh ID [CHECK]: demo on clean tree (unless NOCLEAN), apply the patch, build, tests, demo, check; undo.
ID=$1; S=/verif/seeded/$ID
PROP=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$NOCLEAN" ]; then bash $S/demo.sh >/tmp/w/seed_$ID.clean 2>&1; echo "demo clean: $? (want 0)"; fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$CHECKONLY" ]; then
bash /opt/vp/build.sh >/tmp/w/seed_$ID.build 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/w/seed_$ID.build; exit 1; }
bash /opt/vp/test.sh /tmp/w/seed_$ID.json >/tmp/w/seed_$ID.test 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/seed_$ID.json'))
st=b.get('stable') or b.get('passed') or b
ok=set(r.get('passed',[])); bad=[t for t in st if t not in ok]
print('stable tests failing:',len(bad),bad[:5])
P
bash $S/demo.sh >/tmp/w/seed_$ID.bug 2>&1; echo "demo with bug: $? (want nonzero)"
fi
for p in $PROP; do (cd /verif && python3 check.py $p -v 2>&1 | grep -v undecided | cut -c1-300 | tail -4); done
