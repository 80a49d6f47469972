#!/bin/bash
# Builds the fact extractor (a libTooling program) into $1.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build/gfacts}
mkdir -p "$(dirname "$out")"
tmp="$out.$$.tmp"
/usr/bin/clang++-18 -std=c++17 -O1 -fno-rtti -w -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$here/extract.cpp" /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 /usr/lib/llvm-18/lib/libLLVM-18.so -o "$tmp"
mv "$tmp" "$out"
