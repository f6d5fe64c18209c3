#!/bin/sh
# builds the simulator's preload library into /verif/build
set -e
cd "$(dirname "$0")/.."
mkdir -p build
gcc -O2 -w -fno-delete-null-pointer-checks -fPIC -shared -o build/shim.so.$$ sim/shim.c -ldl
mv build/shim.so.$$ build/shim.so
