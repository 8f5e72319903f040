#!/bin/bash
# build_lib.sh OUT [asan|plain] : libseat's seatd backend against a model server
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN=""
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -DSEATD_DEFAULTPATH=\"/nonexistent/default\" -DLIBSEAT=1 -DSEATD_ENABLED=1 -I$REPO -I$REPO/include -w"
cd $OUT
O=""
for f in common/log common/linked_list common/connection libseat/libseat libseat/backend/seatd libseat/backend/noop; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -c $REPO/$f.c -o $n & O="$O $n"
done
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/lib_sim.cpp -o lib_sim.o &
wait
python3 $H/redirect.py +connect $O
clang++ $SAN -g lib_sim.o $O -o lib_sim
