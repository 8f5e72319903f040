#!/bin/bash
# build_e2e.sh OUT [asan|plain] : libseat applications and seatd in one executable; seatd's symbols get the prefix d_
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$(realpath -m $1); VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN="" 
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -I$REPO -I$REPO/include -w"
LX="-DLIBSEAT=1 -DSEATD_ENABLED=1 -DBUILTIN_ENABLED=1 -DSEATD_DEFAULTPATH=\"/nonexistent/default\""
cd $OUT
# one more global gives seatd's copies of the modules section groups of their own
echo "int DMARK;" > dmark.h
CORE="common/log common/linked_list common/terminal common/connection common/evdev common/hidraw common/drm common/wscons seatd/poller seatd/seat seatd/client seatd/server"
D=""; A=""
for f in $CORE; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -DDMARK=mark_${n%.o} -include $OUT/dmark.h -c $REPO/$f.c -o d_$n & D="$D d_$n"
  clang $CF $SAN $LX -c $REPO/$f.c -o a_$n & A="$A a_$n"
done
clang $CF $SAN -Dmain=seatd_main '-DSEATD_DEFAULTPATH=sim_sockpath' -include $H/simpath.h -c $REPO/seatd/seatd.c -o d_seatd_seatd.o & D="$D d_seatd_seatd.o"
for f in libseat/libseat libseat/backend/seatd libseat/backend/noop; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN $LX -c $REPO/$f.c -o a_$n & A="$A a_$n"
done
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/e2e_sim.cpp -o e2e_sim.o &
wait
python3 $H/redirect.py +fork,exit,_exit,connect $A
python3 $H/redirect.py $D
nm -g --defined-only $D | awk 'NF==3 && $2 ~ /[A-Z]/ && $3 !~ /^(__asan|asan\.|__sanitizer|__start|__stop)/ {print $3, "d_" $3}' | sort -u > dsyms
for o in $D; do objcopy --redefine-syms=dsyms $o; done
clang++ $SAN -g e2e_sim.o $A $D -o e2e_sim
