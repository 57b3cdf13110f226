#!/bin/bash
# seed.sh ID [nocheck|testonly]: confirm the planted bug seeded/ID in a scratch copy of /repo laid over /repo in a
# private mount namespace (build, stable tests, demo with and without), then run its property's check on it.
ID=$1; MODE=$2; HERE=$(cd "$(dirname "$0")/.." && pwd); LAB=/tmp/lab
S=$HERE/seeded/$ID
if [ -z "$IN_LAB" ]; then
  mkdir -p $LAB && rsync -a --delete /repo/ $LAB/ 2>/dev/null || { rm -rf /tmp/lab; cp -a /repo $LAB; }
  exec unshare -m env IN_LAB=1 bash -c "mount --bind $LAB /repo && exec bash $0 $ID $MODE"
fi
cd /repo && git checkout -q -- . && git apply --check $S/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 3; }
rm -rf /tmp/seedrun && cp -r $S /tmp/seedrun && rm -f /tmp/seedrun/patch.diff /tmp/seedrun/meta.json
# unchanged
if [ "$MODE" != testonly ]; then
bash /opt/vp/build.sh >/tmp/lab.log 2>&1 || { echo "BASE BUILD FAILED"; exit 3; }
bash /tmp/seedrun/demo.sh >/tmp/demo0.log 2>&1; D0=$?
fi
git apply $S/patch.diff
bash /opt/vp/build.sh >/tmp/lab.log 2>&1 || { echo "BUILD FAILED"; grep -E "error" /tmp/lab.log | head; git checkout -q -- .; exit 3; }
bash /opt/vp/test.sh /tmp/lab.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/lab.json'))
names=b.get('passed') or b.get('stable') or b
names=[n if isinstance(n,str) else n.get('name') for n in (names if isinstance(names,list) else names.keys())]
miss=[n for n in names if n not in set(d['passed'])]
print("TESTS", "ok" if not miss else "FAIL %s"%miss[:8], len(d['passed']))
P
if [ "$MODE" != testonly ]; then
bash /tmp/seedrun/demo.sh >/tmp/demo1.log 2>&1; D1=$?
echo "DEMO unchanged=$D0 changed=$D1 (want 0, nonzero)"; [ $D0 = 0 ] || tail -5 /tmp/demo0.log; tail -3 /tmp/demo1.log
fi
if [ "$MODE" != nocheck ]; then
 P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 (cd $HERE && VERIF_BUILD=/tmp/labbuild VERIF_EVIDENCE=/tmp/labev VERIF_REPLAYS=/tmp/labrep python3 tools/check.py $P 2>&1 | tail -6; echo "CHECK $P exit ${PIPESTATUS[0]}")
fi
git checkout -q -- .
