#!/bin/bash
# build_start.sh OUT [asan|plain] : start-up harness of the daemon
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN=""
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -I$REPO -I$REPO/include -w"
cd $OUT
O=""
for f in common/log common/linked_list common/terminal common/connection common/evdev common/hidraw common/drm common/wscons seatd/poller seatd/seat seatd/client seatd/server; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -c $REPO/$f.c -o $n & O="$O $n"
done
clang $CF $SAN -Dmain=seatd_main '-DSEATD_DEFAULTPATH=start_sock_path' -include $H/startpath.h -c $REPO/seatd/seatd.c -o seatd_seatd.o & O="$O seatd_seatd.o"
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -w -c $H/start_sim.cpp -o start_sim.o &
wait
python3 $H/redirect.py $(python3 $H/fsred.py) $O
clang++ $SAN -g start_sim.o $O -o start_sim
