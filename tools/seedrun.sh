#!/bin/bash
# seedrun.sh ID... : runs the check of each planted bug's property against a clone with the bug
for ID in "$@"; do
  D=/verif/seeded/$ID; W=/tmp/sr_repo
  P=${CHECK:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")}
  rm -rf $W; git clone -q /repo $W; (cd $W && git apply $D/patch.diff) || { echo "$ID: patch does not apply"; continue; }
  for p in $P; do
    t=$(date +%s); out=$(cd /verif && VERIF_REPO=$W python3 check.py $p 2>&1); rc=$?
    echo "$ID $p rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -m1 -A1 VIOLATION | tail -1 | cut -c1-150)"
    [ $rc = 2 ] && echo "$out" | head -5
  done
done
rm -rf /tmp/sr_repo
