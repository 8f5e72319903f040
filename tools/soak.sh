#!/bin/bash
# soak.sh OUTDIR FIRSTSEED LASTSEED [PROP...] : the quick checks over many seeds, from a copy of the committed work
OUT=$1; A=$2; B=$3; shift 3
mkdir -p $OUT
git clone -q /verif $OUT/v; git clone -q /repo $OUT/repo; export VERIF_REPO=$OUT/repo
cd $OUT/v
PROPS=${*:-$(python3 -c "import json;print(*[c['property'] for c in json.load(open('MANIFEST.json'))['checks']])")}
for s in $(seq $A $B); do for p in $PROPS; do
  VERIF_SEED=$s VERIF_TIER=quick nice -n 10 python3 check.py $p > $OUT/$p.$s.log 2>&1 || { echo "$p seed $s: $(grep -v VIOLATION $OUT/$p.$s.log | head -1)" >> $OUT/fail; }
  tail -1 $OUT/$p.$s.log >> $OUT/all
done; done
echo done >> $OUT/all
