#!/bin/bash
# Builds the storage seam (the only compiled part) from the committed source.
set -e
cd "$(dirname "$0")"
mkdir -p build out evidence
tmp=$(mktemp build/shim.XXXXXX)
gcc -O2 -fPIC -shared -Wall -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -o "$tmp" sim/shim.c -ldl
mv -f "$tmp" build/shim.so
