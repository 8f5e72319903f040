#!/bin/bash
# Builds libseat from the current directory with demo.c and runs it.
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE -fsanitize=address,undefined -fno-sanitize-recover=undefined -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 \
  -DLIBSEAT=1 -DSEATD_ENABLED=1 '-DSEATD_DEFAULTPATH="/nonexistent/seatd.sock"' -I. -Iinclude -I"$H" -o "$T/demo" "$H/demo.c" \
  common/log.c common/linked_list.c common/connection.c libseat/libseat.c libseat/backend/seatd.c libseat/backend/noop.c -lpthread $WRAP \
  || { echo "demo does not build"; exit 1; }
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
