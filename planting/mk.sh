#!/bin/bash
# mk.sh ID : verifies /verif/seeded/ID against /repo; writes /tmp/seedw/ID.res
ID=$1; S=/verif/seeded/$ID; R=/tmp/seedw/$ID.res; : > $R
cd /repo; git status --short | grep -q . && { echo "repo dirty" >> $R; exit 1; }
if [ "$2" != nobase ]; then bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh > /tmp/seedw/$ID.d0 2>&1; echo "demo base rc=$?" >> $R; fi
git apply $S/patch.diff || { echo "apply failed" >> $R; exit 1; }
if bash /opt/vp/test.sh /tmp/seedw/$ID.json > /tmp/seedw/$ID.tlog 2>&1; then echo "build+test ok" >> $R; else echo "build/test FAILED" >> $R; fi
python3 - $ID >> $R <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(f'/tmp/seedw/{sys.argv[1]}.json'))
base=b["stable"]
base=set(base if isinstance(base,list) else base.keys()); p=set(o['passed'])
print('missing',len(base-p),sorted(base-p)[:8])
P
bash $S/demo.sh > /tmp/seedw/$ID.d1 2>&1; echo "demo patched rc=$?" >> $R
git checkout -- . ; cat $R
