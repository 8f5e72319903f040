#!/bin/bash
# build_backend.sh OUT [asan|plain] : libseat_open_seat, noop and logging with scripted backends (backend_sim) and with the
# real seatd and builtin backends (backend_real)
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$(realpath -m $1); VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN=""
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -DSEATD_DEFAULTPATH=\"/nonexistent/default\" -DLIBSEAT=1 -DSEATD_ENABLED=1 -DLOGIND_ENABLED=1 -DBUILTIN_ENABLED=1 -I$REPO -I$REPO/include -w"
cd $OUT
O=""; R=""
for f in common/log libseat/libseat libseat/backend/noop; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -c $REPO/$f.c -o $n & O="$O $n"
done
for f in common/linked_list common/terminal common/connection common/evdev common/hidraw common/drm common/wscons seatd/poller seatd/seat seatd/client seatd/server libseat/backend/seatd; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -c $REPO/$f.c -o $n & R="$R $n"
done
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/backend_sim.cpp -o backend_sim.o &
clang++ -DREAL -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/backend_sim.cpp -o backend_real.o &
wait
python3 $H/redirect.py +connect,fork,clock_gettime,isatty,exit,_exit $O $R
clang++ $SAN -g backend_sim.o $O -o backend_sim
clang++ $SAN -g backend_real.o $O $R -o backend_real
