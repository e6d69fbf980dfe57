#!/bin/bash
# tryseed.sh NAME [notests]: confirm a planted bug (demo, tests) and run its property's check, then undo
N=$1; S=/verif/seeded/$N; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/ts.log 2>&1; bash $S/demo.sh >/tmp/ts.demo0 2>&1; echo "$N demo unpatched: $?"
git apply $S/patch.diff || exit 8
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || { echo "$N BUILD FAILS"; exit 7; }
bash $S/demo.sh >/tmp/ts.demo1 2>&1; echo "$N demo patched: $?"
if [ "$2" != notests ]; then bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1; python3 - <<'P'
import json; b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/ts.json')); print('tests missing:', [t for t in b if t not in o['passed']])
P
fi
cd /verif; timeout 900 /opt/veriftools/pyvenv/bin/python3 -m vf.check $P --tier quick; echo "$N check $P: rc $?"
