#!/bin/bash
# tools/seedcheck.sh ID [nocheck|notest]: apply a planted bug to /repo, confirm it, run its property's check, undo.
D=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
pgrep -f /opt/vcheck >/dev/null && pgrep -fa 'python.*vcheck' && { echo "vcheck runs"; exit 9; }
cd /repo; [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
undo() { git -C /repo checkout -q -- .; }; trap undo EXIT
if [ "$2" != demoless ]; then
bash $D/demo.sh >/tmp/demo0.log 2>&1 || { echo "DEMO FAILS ON CLEAN"; tail -30 /tmp/demo0.log; exit 1; }
fi
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo BUILD; tail /tmp/b.log; exit 1; }
bash $D/demo.sh >/tmp/demo1.log 2>&1 && { echo "DEMO PASSES WITH PATCH"; exit 1; }
echo "demo ok: $(grep -m1 -E 'Error:|panic|FAIL' /tmp/demo1.log)"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/t.json'))
ok=set(t.get('passed',t.get('pass',[])))
print('stable tests broken:', sorted(b-ok)[:5])
P
fi
[ "$2" = nocheck ] && exit 0
cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $P --tier quick 2>&1 | tail -5
