#!/bin/bash
# builds the symbolic executor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); B=${1:-$D/../build}; mkdir -p "$B"
Z=/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3
F="-std=c++17 -O2 -I$Z/include -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -Wno-deprecated-declarations"
for f in interp builtins main; do g++ $F -c "$D/$f.cpp" -o "$B/$f.o" & done
for j in $(jobs -p); do wait $j; done
g++ "$B/interp.o" "$B/builtins.o" "$B/main.o" -o "$B/symex.tmp" -L$Z/lib -lz3 -Wl,-rpath,$Z/lib -L/usr/lib/llvm-18/lib -lLLVM-18 -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/symex.tmp" "$B/symex"
