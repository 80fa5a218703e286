#!/bin/bash
# development helper: seed.sh try ID PROP  - apply seeded/ID/patch.diff to a scratch copy, run the stable tests, the demo and the check
V=$(cd "$(dirname "$0")/.."; pwd); export V; ID=$1; PROP=${2:-$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")}
D=/tmp/seed_$ID
rm -rf "$D"; cp -a /repo "$D"; cd "$D" && git checkout -q -- . && git apply $V/seeded/$ID/patch.diff || { echo "$ID: PATCH FAILS"; rm -rf "$D"; exit 1; }
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0
if [ -z "$NOTEST" ]; then
  PYTHONPATH=$D /opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 8 --timeout=300 -o junit_family=xunit2 --junitxml=$D/unit.xml rdtools >/dev/null 2>&1
  python3 - <<P
import json, xml.etree.ElementTree as E
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set()
for c in E.parse('$D/unit.xml').iter('testcase'):
    if not any(x.tag in('failure','error','skipped') for x in c): ok.add(c.get('classname')+'::'+c.get('name'))
bad=[s for s in st if s.startswith('rdtools') and s not in ok]
print('$ID tests: ', 'ALL STABLE PASS' if not bad else 'FAIL %d %s'%(len(bad),bad[:5]))
P
fi
(cd /repo && bash $V/seeded/$ID/demo.sh >/tmp/seed_$ID.d0 2>&1; echo "$ID demo clean: $?")
(cd $D && PYTHONPATH=$D bash $V/seeded/$ID/demo.sh >/tmp/seed_$ID.d1 2>&1; echo "$ID demo patched: $?"; tail -2 /tmp/seed_$ID.d1)
if [ -z "$NOCHECK" ]; then
  cp $V/evidence/$PROP.json /tmp/seed_$ID.ev 2>/dev/null
  SYMX_REPO=$D bash $V/check $PROP quick > /tmp/seed_$ID.out 2>&1; echo "$ID check $PROP exit: $?"; grep -A1 VIOLATION /tmp/seed_$ID.out | cut -c1-300; tail -1 /tmp/seed_$ID.out
  cp /tmp/seed_$ID.ev $V/evidence/$PROP.json 2>/dev/null; rm -f /tmp/seed_$ID.ev
fi
rm -rf "$D"
