#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/symex)
set -e
cd "$(dirname "$0")"
OUT=${1:-/verif/build/symex}
mkdir -p "$(dirname "$OUT")"
Z3=$(ls -d /opt/veriftools/pyvenv/lib/python3*/site-packages/z3 | head -1)
[ -e "$Z3/lib/libz3.so" ]
g++ -O2 -g0 -std=c++17 symex.cpp $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//;s/-std=c++[0-9a-z]*//') -fexceptions -I"$Z3/include" \
  -L/usr/lib/llvm-18/lib -lLLVM-18 -L"$Z3/lib" -lz3 -Wl,-rpath,"$Z3/lib" -Wl,-rpath,/usr/lib/llvm-18/lib -o "$OUT.tmp" -w
mv "$OUT.tmp" "$OUT"
