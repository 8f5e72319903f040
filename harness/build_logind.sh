#!/bin/bash
# build_logind.sh OUT [asan|plain] : libseat's logind backend against a model bus
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN=""
CF="-std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -DSEATD_DEFAULTPATH=\"/nonexistent/default\" -DLIBSEAT=1 -DSEATD_ENABLED=1 -DLOGIND_ENABLED=1 -DHAVE_LIBSYSTEMD=1 -I$REPO -I$REPO/include -w"
cd $OUT
O=""
for f in common/log common/linked_list common/connection libseat/libseat libseat/backend/seatd libseat/backend/noop libseat/backend/logind; do
  n=$(echo $f | tr / _).o
  clang $CF $SAN -c $REPO/$f.c -o $n & O="$O $n"
done
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/logind_sim.cpp -o logind_sim.o &
wait
python3 $H/redirect.py +connect $O
objcopy --redefine-sym sd_session_is_active=x_session_is_active --redefine-sym sd_pid_get_session=x_pid_get_session \
  --redefine-sym sd_uid_get_display=x_uid_get_display --redefine-sym sd_session_get_seat=x_session_get_seat \
  --redefine-sym sd_bus_get_property_trivial=x_get_property_trivial --redefine-sym sd_bus_message_read_basic=x_read_basic libseat_backend_logind.o
clang++ $SAN -g logind_sim.o $O -rdynamic -lsystemd -o logind_sim
