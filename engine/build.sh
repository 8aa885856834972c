#!/bin/bash
# builds build/symx (a few seconds)
cd "$(dirname "$0")"; out=${1:-../build}; mkdir -p $out/eng
F="-O2 -std=c++17 -I/usr/include/llvm-c-18 -I/usr/include/llvm-18 -w"
pids=()
for f in expr ir solver exec fd; do g++ $F -c $f.cc -o $out/eng/$f.o & pids+=($!); done
for p in "${pids[@]}"; do wait $p || exit 1; done
g++ $out/eng/*.o -o $out/symx.tmp -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread && mv $out/symx.tmp $out/symx
