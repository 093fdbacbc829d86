#!/bin/bash
# symcc.sh <build> <harness.cpp> <out> <srcdir> [flags...] : instrumented executable; "native" variant when SXNATIVE=1
set -e
b=$1; h=$2; o=$3; src=$4; shift 4; here=$(cd "$(dirname "$0")" && pwd)
inc="-I$here/stubs -I$here -I$here/../harness -I$src"
F="-std=c++11 -DNDEBUG -w $inc $*"
if [ -n "$SXNATIVE" ]; then
  clang++-18 $F -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr,shift,unsigned-shift-base,signed-integer-overflow -DSX_NATIVE "$h" "$b/replay.o" -o "$o" -lfmt
  exit
fi
clang++-18 $F -O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -ffp-contract=off -include "$here/noextern.h" -gline-tables-only -emit-llvm -c "$h" -o "$o.bc"
"$b/sympass" "$o.bc" "$b/libc.bc" "$b/inline.bc" "$o.i.bc" "$o.funcs" "$src"
clang++-18 -O1 -w -c "$o.i.bc" -o "$o.o"
clang++-18 "$o.o" "$b/rt.o" -o "$o" ${Z3LIB:--lz3} -lfmt -lpthread
rm -f "$o.bc" "$o.i.bc" "$o.o"
