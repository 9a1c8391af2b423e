#!/bin/bash
# builds ffdump into /verif/build (git-ignored)
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../../build"
mkdir -p "$out"
clang++-18 -std=c++17 -O1 -fno-rtti -w $(llvm-config-18 --cppflags) "$here/ffdump.cpp" -o "$out/ffdump.tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 $(ls /usr/lib/llvm-18/lib/libLLVM*.so* | head -1) -Wl,-rpath,/usr/lib/llvm-18/lib
mv "$out/ffdump.tmp" "$out/ffdump"
