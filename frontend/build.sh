#!/bin/bash
# Builds the extractor into $1 (default /verif/build/tjx) if it is missing or older than its source.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/tjx}
mkdir -p "$(dirname "$out")"
if [ ! -x "$out" ] || [ "$here/tjx.cpp" -nt "$out" ]; then
  /usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w $(/usr/bin/llvm-config-18 --cppflags 2>/dev/null || echo -I/usr/lib/llvm-18/include) \
    "$here/tjx.cpp" -o "$out.tmp.$$" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM.so.18.1
  mv "$out.tmp.$$" "$out"
fi
