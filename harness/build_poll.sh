#!/bin/bash
# build_poll.sh OUT [asan|plain] : API harness of the event loop
set -e
# polltext.h puts the code under test into a text section of its own, so that stepping can tell it apart
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -O1"
[ $VAR = plain ] && SAN="-O2"
CF="-std=c11 -g -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -I$REPO -I$REPO/include -w"
cd $OUT
clang $CF $SAN -include $H/polltext.h -c $REPO/seatd/poller.c -o poller.o
clang $CF $SAN -include $H/polltext.h -c $REPO/common/linked_list.c -o linked_list.o
clang++ -std=c++17 -g -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/poll_sim.cpp -o poll_sim.o
python3 $H/redirect.py poller.o linked_list.o
clang++ $SAN -g poll_sim.o poller.o linked_list.o -o poll_sim
