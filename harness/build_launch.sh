#!/bin/bash
# build_launch.sh OUT [asan|plain] : harness of seatd-launch
set -e
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")"; pwd)
OUT=$1; VAR=${2:-asan}
mkdir -p $OUT
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined"
[ $VAR = plain ] && SAN=""
cd $OUT
clang -std=c11 -g -O1 -fno-omit-frame-pointer -D_XOPEN_SOURCE=700 -D__BSD_VISIBLE -D_NETBSD_SOURCE -DSEATD_VERSION=\"v\" -I$REPO -I$REPO/include -w $SAN \
  -Dmain=launch_main -DSEATD_DEFAULTPATH=launch_sock -DSEATD_INSTALLPATH=launch_seatd -include $H/launchpath.h -c $REPO/seatd-launch/seatd-launch.c -o launch.o
clang++ -std=c++17 -g -O1 -fno-omit-frame-pointer $SAN -w -c $H/launch_sim.cpp -o launch_sim.o
clang -O1 -w $H/launch_stub.c -o launch_stub
A=""
for n in pipe pipe2 fork vfork waitpid wait poll read chown lchown chmod setgid setuid setresuid setresgid setreuid setregid seteuid setegid kill killpg sigqueue; do A="$A --redefine-sym $n=sim_$n"; done
objcopy $A launch.o
clang++ $SAN -g launch_sim.o launch.o -o launch_sim
