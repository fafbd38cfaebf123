#!/bin/bash
# Compile the I/O seam (each check also does so when it is missing).
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence replays
gcc -O2 -fPIC -shared -w -o build/libsimio.so shim/simio.c -ldl
gcc -O2 -fPIC -shared -w -o build/libpgclock.so shim/pgclock.c -ldl
