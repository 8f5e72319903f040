#!/bin/bash
# build_conn.sh OUT [asan|plain] : API harness of the connection layer
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -O1"
[ $VAR = plain ] && SAN="-O2"
CF="-std=c11 -g -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -I$REPO -I$REPO/include -w"
cd $OUT
clang $CF $SAN -c $REPO/common/connection.c -o connection.o
clang++ -std=c++17 -g -fno-omit-frame-pointer $SAN -I$REPO/include -w -c $H/conn_sim.cpp -o conn_sim.o
python3 $H/redirect.py connection.o
clang++ $SAN -g conn_sim.o connection.o -o conn_sim
