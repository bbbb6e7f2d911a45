#!/bin/bash
# chk.sh ID [PROP...]: run checks against the patched clone
ID=$1; shift; P="$@"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cd /tmp/seedw/chk && git checkout -q -- . && git apply /verif/seeded/$ID/patch.diff || exit 9
for p in $P; do
 MX_REPO=/tmp/seedw/chk MX_BUILD=/tmp/seedw/bld VERIF_SEED=1 VERIF_TIER=quick nice -n 19 timeout 900 python3 /verif/tools/check.py $p > /tmp/seedw/chk_${ID}_$p.out 2>&1; rc=$?
 echo "$ID $p rc=$rc $(grep -h VIOLATION /tmp/seedw/chk_${ID}_$p.out | head -2 | tr '\n' ' ') $(grep -h 'kind\|first' /tmp/seedw/chk_${ID}_$p.out | head -1 | cut -c1-150)"
done
git checkout -q -- .
