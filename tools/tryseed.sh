#!/bin/bash
# tryseed.sh ID [nocheck|notest]: apply seeded/ID/patch.diff in a scratch copy of /repo, build, run tests, demo (with and without), check
set -u
ID=$1; S=/tmp/seed_$ID; V=$(cd "$(dirname "$0")/.."; pwd)
mkdir -p $S; cp -a /repo/. $S/repo
for f in build test; do sed -e "s#/repo#$S/repo#g" -e "s#/opt/vp/build.sh#$S/build.sh#g" /opt/vp/$f.sh > $S/$f.sh; done
cp -a $V/seeded/$ID $S/demo; for f in $S/demo/*; do sed -i "s#/repo#$S/repo#g" $f; done
P=$(python3 -c "import json;print(json.load(open('$V/seeded/$ID/meta.json'))['property'])")
bash $S/build.sh >$S/b0.log 2>&1 || echo "BASE BUILD FAILED"
( cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/d0.log 2>&1 ); echo "demo on base: $?"
cd $S/repo && git apply $V/seeded/$ID/patch.diff || { echo "PATCH FAILED"; exit 1; }
bash $S/build.sh >$S/b1.log 2>&1 || { echo "BUILD FAILED"; tail -5 $S/b1.log; }
( cd $S/repo && timeout 300 bash $S/demo/demo.sh >$S/d1.log 2>&1 ); echo "demo with bug: $?"; tail -3 $S/d1.log
if [ "${2:-}" != notest ]; then bash $S/test.sh $S/out.json >$S/t.log 2>&1; python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$S/out.json'))
st=b['stable']
print('broken tests:', sorted(set(st)-set(o['passed']))[:5], len(o['passed']))
P
fi
[ "${2:-}" = nocheck ] || ( cd $V && JSV_REPO=$S/repo timeout 900 python3 jsv/run.py $P 2>&1 | grep -E "FAILED|FAIL|fail|VIOLATION|key=|attach|timeout|wall" | head -12 )
rm -rf "$S"
