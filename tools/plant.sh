#!/bin/bash
# plant.sh ID: confirms /verif/seeded/ID in a scratch copy: applies, builds, passes the stable tests, demo fails with it and passes without.
# NOTEST=1 skips the test run.
set -u
ID=$1; S=/verif/seeded/$ID; W=/tmp/bugrepo
[ -d $W ] || cp -a /repo $W
cd $W && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD || exit 1
rundemo() { rm -rf /tmp/demo.d; cp -a $S /tmp/demo.d; rm -f /tmp/demo.d/*.diff /tmp/demo.d/meta.json; (cd $W && timeout 300 bash /tmp/demo.d/demo.sh) >/tmp/demo.out 2>&1; local r=$?; rm -rf /tmp/demo.d; return $r; }
rundemo; r0=$?
git apply $S/patch.diff || { echo "$ID: patch does not apply"; exit 1; }
. /opt/vp/env.sh
go build ./... || { echo "$ID: does not build"; git reset -q --hard; exit 1; }
cp /tmp/demo.out /tmp/demo.out0
rundemo; r1=$?
cp /tmp/demo.out /tmp/demo.out1
t=skipped
if [ -z "${NOTEST:-}" ]; then
  sed "s#/repo#$W#g; s#/opt/vp/env.sh#/tmp/bugenv.sh#" /opt/vp/test.sh > /tmp/bugtest.sh
  sed "s#/repo#$W#g" /opt/vp/env.sh > /tmp/bugenv.sh
  bash /tmp/bugtest.sh /tmp/bugout.json >/dev/null 2>&1
  t=$(python3 -c "
import json
o=json.load(open('/tmp/bugout.json'));b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']);m=[x for x in b['stable'] if x not in p];print('tests-ok' if not m else 'TESTS-FAIL %d %s'%(len(m),m[:3]))")
fi
git reset -q --hard
echo "$ID: demo unpatched=$r0 patched=$r1 $t"
