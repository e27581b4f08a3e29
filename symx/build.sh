#!/bin/bash
# usage: build.sh OUTDIR  -> OUTDIR/symx
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; mkdir -p "$out"
CXXF=$(/usr/bin/llvm-config-18 --cxxflags | sed 's/-fno-exceptions//')
pids=()
for f in expr solver main; do
  /usr/bin/clang++-18 -std=c++17 -O2 $CXXF -w -c "$here/$f.cpp" -o "$out/$f.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p"; done
/usr/bin/clang++-18 "$out"/{expr,solver,main}.o -o "$out/symx.tmp" $(/usr/bin/llvm-config-18 --ldflags --libs) -lz3 -lpthread
mv "$out/symx.tmp" "$out/symx"; rm -f "$out"/{expr,solver,main}.o
