#!/bin/bash
# seed.sh ID [save]: verify planted bug ID. With "save" the change currently in
# /repo's working tree becomes its patch first.
V=/verif; S=$V/seeded/$1
[ "$2" = save ] && git -C /repo diff > $S/patch.diff
git -C /repo checkout -q -- . ; git -C /repo apply $S/patch.diff || exit 9
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
bash /opt/vp/build.sh > /tmp/seed.build 2>&1 || { echo "BUILD FAILED"; grep -m5 error: /tmp/seed.build; git -C /repo checkout -q -- .; exit 8; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/seed.json > /tmp/seed.test 2>&1
python3 - <<'E2'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/seed.json'))['passed'])
print('tests missing:',[x for x in b if x not in p][:5])
E2
fi
(cd /repo; timeout 300 bash $S/demo.sh > /tmp/seed.demo 2>&1); echo "demo with patch: $?  ($(tail -1 /tmp/seed.demo))"
C=$(python3 -c "
import json
for c in json.load(open('$V/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])")
(cd $V; $C > /tmp/seed.check 2>&1; echo "check $P: $?"; grep -v KNOWN /tmp/seed.check | tail -3)
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed.build 2>&1
(cd /repo; timeout 300 bash $S/demo.sh > /tmp/seed.demo 2>&1); echo "demo clean: $?  ($(tail -1 /tmp/seed.demo))"
