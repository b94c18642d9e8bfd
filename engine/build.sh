#!/bin/bash
# builds the symbolic executor into /verif/build
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
CF="-std=c++20 -O2 -g0 -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
for f in expr solver kse; do clang++-18 $CF -c "$here/src/$f.cc" -o "$out/$f.o" & done
for j in $(jobs -p); do wait $j; done
clang++-18 "$out/expr.o" "$out/solver.o" "$out/kse.o" -o "$out/kse" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lminisat -lz
