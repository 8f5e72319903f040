#!/bin/bash
# build_sim.sh OUT [asan|plain|hid|builtin] : builds the server simulation from /repo
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
EX=""
case $VAR in
plain) SAN="";;
builtin) EX="-DLIBSEAT=1 -DSEATD_ENABLED=1 -DBUILTIN_ENABLED=1"; ;;
hid) EX="-DHIDIOCREVOKE=_IOW('H',0x0D,int)"; ;;
esac
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -I$REPO -I$REPO/include -w"
cd $OUT
O=""
for f in common/log common/linked_list common/terminal common/connection common/evdev common/hidraw common/drm common/wscons seatd/poller seatd/seat seatd/client seatd/server; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN $EX -c $REPO/$f.c -o $n & O="$O $n"
done
clang $CF $SAN $EX -Dmain=seatd_main '-DSEATD_DEFAULTPATH=sim_sockpath' -include $H/simpath.h -c $REPO/seatd/seatd.c -o seatd_seatd.o & O="$O seatd_seatd.o"
if [ $VAR = builtin ]; then
  clang $CF $SAN $EX -DSEATD_DEFAULTPATH=\"/none\" -c $REPO/libseat/backend/seatd.c -o libseat_backend_seatd.o & O="$O libseat_backend_seatd.o"
fi
HD=""; [ $VAR = hid ] && HD="-DHID_SUPPORTED=1"
[ $VAR = builtin ] && HD="-DSIM_BUILTIN -I$REPO/include -w"
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN $HD -c $H/sim.cpp -o sim.o &
wait
N=+stat,stat64,lstat,lstat64,fstat,fstat64,fstatat,fstatat64,access,readlink
if [ $VAR = builtin ]; then N=$N,fork,exit,_exit,connect; fi
python3 $H/redirect.py $N $O
clang++ $SAN -g sim.o $O -o sim
