#!/bin/bash
# Builds the symbolic executor into $1 (default /verif/build/symx).
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/symx}
mkdir -p "$(dirname "$out")"
LC=/usr/lib/llvm-18/bin/llvm-config
FL="-std=c++17 -O2 -g0 -fno-rtti -I/usr/include/llvm-18 -I/usr/include/llvm-c-18 -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE -w"
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
clang++ $FL -c "$here/expr.cc" -o "$tmp/expr.o" &
clang++ $FL -c "$here/engine.cc" -o "$tmp/engine.o" &
wait %1; wait %2
clang++ "$tmp/expr.o" "$tmp/engine.o" -o "$tmp/symx" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread
mv "$tmp/symx" "$out"
