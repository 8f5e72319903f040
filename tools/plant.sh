#!/bin/bash
# plant.sh ID : validates /verif/seeded/ID in a scratch copy of /repo.
# With "new": takes the edits made in /tmp/wt as the patch first.
ID=$1; D=/verif/seeded/$ID; W=/tmp/wtv_$ID
if [ "$2" = new ]; then git -C /tmp/wt diff > $D/patch.diff; git -C /tmp/wt checkout -q -- .; fi
[ -s $D/patch.diff ] || { echo "no patch"; exit 1; }
python3 -c "import json;json.load(open('$D/meta.json'))" || exit 1
rm -rf $W; git -C /repo worktree prune; git clone -q /repo $W; cd $W
echo -n "$ID clean: "; bash $D/demo.sh > /tmp/plant_$ID.clean 2>&1; c=$?; echo -n "$c  "
git apply $D/patch.diff || { echo "patch does not apply"; exit 1; }
(meson setup _b -Dwerror=true >/dev/null 2>&1; ninja -C _b > /tmp/plant_$ID.build 2>&1) || { echo BUILD FAILED; tail -5 /tmp/plant_$ID.build; }
for t in linked_list connection poller; do meson test -C _b $t >/dev/null 2>&1 || echo "TEST $t FAILS"; done
echo -n "patched: "; bash $D/demo.sh > /tmp/plant_$ID.bug 2>&1; p=$?; echo "$p"
[ $c = 0 ] || tail -5 /tmp/plant_$ID.clean; [ $p != 0 ] && grep -m2 -E "FAILED|ERROR|error" /tmp/plant_$ID.bug
cd /; rm -rf $W
