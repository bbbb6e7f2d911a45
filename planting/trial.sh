#!/bin/bash
# trial.sh ID [PROP...]
ID=$1; shift; P="$@"; [ -z "$P" ] && P=$(cat /tmp/seedw/trials/$ID.prop)
cd /tmp/seedw/chk && git checkout -q -- . && git apply /tmp/seedw/trials/$ID.diff || exit 9
for p in $P; do
 MX_REPO=/tmp/seedw/chk MX_BUILD=/tmp/seedw/bld VERIF_SEED=${S:-1} VERIF_TIER=quick MX_QUICK=${Q:-40} nice -n 19 timeout 900 python3 /verif/tools/check.py $p > /tmp/seedw/tr_${ID}_$p.out 2>&1; rc=$?
 echo "$ID $p rc=$rc $(grep -h VIOLATION /tmp/seedw/tr_${ID}_$p.out | head -1| sed 's/.*replay=//') $(grep -hA1 VIOLATION /tmp/seedw/tr_${ID}_$p.out | sed -n 2p | cut -c1-150)"
done
git checkout -q -- .
