#!/bin/bash
# builds the symbolic executor into /verif/build/nsym (only when its sources changed)
set -e
D=$(cd "$(dirname "$0")" && pwd); B="$D/../build"; mkdir -p "$B/o"
KEY=$(cat "$D"/*.cpp "$D"/*.h "$D/build.sh" | sha256sum | cut -c1-16)
[ -x "$B/nsym" ] && [ "$(cat "$B/nsym.key" 2>/dev/null)" = "$KEY" ] && exit 0
CXX="g++ -std=c++17 -O2 -g1 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS"
pids=(); for f in expr solver exec handlers; do $CXX -c "$D/$f.cpp" -o "$B/o/$f.o" & pids+=($!); done
for p in "${pids[@]}"; do wait "$p"; done
g++ "$B"/o/{expr,solver,exec,handlers}.o -o "$B/nsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$B/nsym.tmp" "$B/nsym"; echo "$KEY" > "$B/nsym.key"
