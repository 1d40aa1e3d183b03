#!/bin/bash
# Builds the simulator and its shim into /verif/.build.
set -e
HERE="$(cd "$(dirname "$0")" && pwd)"
B="$HERE/../.build"
mkdir -p "$B"
F="-O2 -Wall -Wno-nonnull-compare -Wno-format-truncation -U_FORTIFY_SOURCE -fno-builtin"
gcc $F -shared -fPIC -o "$B/libsimshim.so.$$" "$HERE/shim.c" -ldl -lpthread
mv "$B/libsimshim.so.$$" "$B/libsimshim.so"
gcc $F -o "$B/simrun.$$" "$HERE/simrun.c"
mv "$B/simrun.$$" "$B/simrun"
gcc $F -shared -fPIC -o "$B/libthr.so.$$" "$HERE/thr.c" -ldl -lpthread
mv "$B/libthr.so.$$" "$B/libthr.so"
