#!/bin/bash
# seed.sh ID : verify /verif/seeded/ID: patch applies, builds, tests pass, demo 0 without, !=0 with
id=$1; d=/verif/seeded/$id
cd ${SEEDREPO:-/repo} && git status --short | grep -q . && { echo dirty; exit 1; }
bash $d/demo.sh >/tmp/seed_$id.log 2>&1; a=$?
git apply $d/patch.diff || exit 1
bash $d/demo.sh >>/tmp/seed_$id.log 2>&1; b=$?
r=skip
if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1; rb=$?; bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
r=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed_t.json'))
print(list(t.keys())[:5], len(t.get('passed',[])))
base=b.get('passed') or b.get('stable') or b.get('tests') or []
print('missing', len(set(base)-set(t.get('passed',[]))))
P
); r="build=$rb $r"; fi
c=""
for p in $(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])") $2; do
cd /verif; c="$c $(timeout 900 python3-vt engine/check.py $p quick 2>&1 | grep -a 'VIOLATION\|bounded\|failed obl\|harnesses' | head -${LINES_MAX:-6})"; done
cd ${SEEDREPO:-/repo} && git checkout -- .
echo "$id demo clean=$a patched=$b tests: $r"; echo "check: $c"
