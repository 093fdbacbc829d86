#!/bin/bash
# builds the engine into $1 (default /verif/build)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=${1:-$here/../build}; mkdir -p "$out"
stamp=$(cat "$here"/*.cpp "$here"/*.c "$here"/*.h "$here/build.sh" | sha256sum | cut -d' ' -f1)
[ -f "$out/stamp" ] && [ "$(cat "$out/stamp")" = "$stamp" ] && exit 0
t=$(mktemp -d "$out/tmp.XXXXXX")
clang++-18 -O1 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') "$here/pass.cpp" -o "$t/sympass" $(llvm-config-18 --ldflags) -lLLVM-18 -w &
clang-18 -O1 -fno-builtin -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -emit-llvm -c "$here/libc.c" -o "$t/libc.bc"
clang-18 -O2 -emit-llvm -c "$here/inline.c" -o "$t/inline.bc"
clang++-18 -std=c++17 -O2 -w ${Z3INC:+-I$Z3INC} -c "$here/rt.cpp" -o "$t/rt.o"
clang++-18 -std=c++17 -O1 -g -w -fsanitize=address,undefined -c "$here/replay.cpp" -o "$t/replay.o"
wait %1
for f in sympass libc.bc inline.bc rt.o replay.o; do mv "$t/$f" "$out/$f"; done
rmdir "$t"; echo "$stamp" > "$out/stamp"
