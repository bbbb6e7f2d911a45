cd /tmp/seedw/chk && git checkout -q -- .
for p in ${PROPS:-E01 F03 F02 H02 C05 C01 C02 C03 C04 H01 H03 F01 F04 F05 F06 F07 D01 D02 T01 T02}; do
MX_REPO=/tmp/seedw/chk MX_BUILD=/tmp/seedw/bld MX_QUICK=${Q:-12} VERIF_TIER=quick VERIF_SEED=${S:-1} python3 /verif/tools/check.py $p > /tmp/seedw/q_$p.out 2>&1; echo "$p rc=$? $(grep -h VIOLATION /tmp/seedw/q_$p.out|head -2|tr '\n' ' ')"; done
