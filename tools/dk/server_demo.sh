#!/bin/bash
# Builds the server sources of the current directory with demo.c and runs it.
H=$(cd "$(dirname "$0")"; pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -std=c11 -g -O1 -U_FORTIFY_SOURCE ${SAN:--fsanitize=address,undefined -fno-sanitize-recover=undefined} -w -D_GNU_SOURCE -D_XOPEN_SOURCE=700 -I. -Iinclude -I"$H" -o "$T/demo" "$H/demo.c" \
  common/log.c common/linked_list.c common/terminal.c common/connection.c common/evdev.c common/hidraw.c common/drm.c common/wscons.c \
  seatd/poller.c seatd/seat.c seatd/client.c seatd/server.c \
  -Wl,--wrap=open,--wrap=open64,--wrap=close,--wrap=ioctl,--wrap=poll,--wrap=realpath || { echo "demo does not build"; exit 1; }
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 100 ./demo
