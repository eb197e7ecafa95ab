#!/bin/bash
# trybug.sh ID [nocheck]: validate a planted bug (build, tests, demo with/without, check verdict). Restores /repo.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
bash $D/demo.sh >/tmp/demo.clean.log 2>&1; C=$?; echo "demo clean rc=$C"; [ $C = 0 ] || tail -5 /tmp/demo.clean.log
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -- . ; bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo rebuild failed' EXIT
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash $D/demo.sh >/tmp/demo.bug.log 2>&1; echo "demo bug rc=$?"; tail -3 /tmp/demo.bug.log
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/t.json')); p=set(o['passed'])
m=[x for x in b if x not in p]; print('tests missing', len(m), m[:5])
P
[ "$2" = nocheck ] && exit
cd /verif; S=$SECONDS; timeout 900 python3 check.py $P --tier quick >/tmp/c.log 2>&1; echo "check $P rc=$? $((SECONDS-S))s"; grep -E "VIOLATION|ERROR" /tmp/c.log | head -5
