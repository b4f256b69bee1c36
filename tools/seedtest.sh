#!/bin/bash
# seedtest.sh ID [nocheck|checkonly]: confirm a planted bug in a scratch copy of /repo (needs /repo/_build up to date)
ID=$1; S=/verif/seeded/$ID; W=/tmp/seedwork_$ID
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "$2" = checkonly ]; then
  mkdir -p $W; cp -a /repo/src /repo/include $W/; (cd $W && patch -sp1 < $S/patch.diff) || { echo "$ID: PATCH FAILS"; exit 1; }
else
  cp -a /repo $W
  rm -rf /tmp/seeddemo_$ID; mkdir /tmp/seeddemo_$ID; cp $S/* /tmp/seeddemo_$ID/; rm -f /tmp/seeddemo_$ID/patch.diff /tmp/seeddemo_$ID/meta.json
  cat > /tmp/seedrun_$ID.sh <<X
mount --bind $W /repo; ip link set lo up; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
for i in 1 2 3; do timeout 300 bash /tmp/seeddemo_$ID/demo.sh > /tmp/seeddemo_$ID/clean.\$i 2>&1; echo "clean demo \$?"; done
git apply $S/patch.diff || { echo PATCH-FAILS; exit; }
bash /opt/vp/build.sh > /tmp/seeddemo_$ID/build.log 2>&1 || echo BUILD-FAILS
for i in 1 2 3; do timeout 300 bash /tmp/seeddemo_$ID/demo.sh > /tmp/seeddemo_$ID/bad.\$i 2>&1; echo "bug demo \$?"; done
bash /opt/vp/test.sh /tmp/seeddemo_$ID/out.json > /dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seeddemo_$ID/out.json'))
bp=b.get('passed') or b.get('stable') or b; m=sorted(set(bp)-set(o['passed'])); print('tests', len(o['passed']), 'missing', m[:5])"
X
  unshare -Urmn bash /tmp/seedrun_$ID.sh 2>&1 | sed "s/^/$ID: /"
fi
if [ "$2" != nocheck ]; then
  VERIF_REPO=$W python3 /verif/check.py $prop > /tmp/seedcheck_$ID.log 2>&1; rc=$?
  echo "$ID: check $prop exit $rc $(grep -m1 '^failure' /tmp/seedcheck_$ID.log | cut -c1-150) $(head -1 /tmp/seedcheck_$ID.log | cut -c1-60)"
fi
rm -rf /tmp/seedwork_$ID
