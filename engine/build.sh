#!/bin/bash
# builds the symbolic executor: engine/build.sh OUTDIR
set -e
D="$(cd "$(dirname "$0")" && pwd)"; O="$1"; mkdir -p "$O"
LL=/usr/lib/llvm-18
pids=()
for f in expr solver exec decode builtins main; do
  if [ ! -f "$O/$f.o" ] || [ "$D/$f.cpp" -nt "$O/$f.o" ] || [ "$D/exec.h" -nt "$O/$f.o" ] || [ "$D/expr.h" -nt "$O/$f.o" ]; then
    g++ -std=c++17 -O2 -I$LL/include -c "$D/$f.cpp" -o "$O/$f.o" & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
g++ -o "$O/symx.tmp" "$O"/{expr,solver,exec,decode,builtins,main}.o -L$LL/lib -lLLVM-18 -lz3 -Wl,-rpath,$LL/lib
mv "$O/symx.tmp" "$O/symx"
