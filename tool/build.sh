#!/bin/bash
# Builds the extractor into $1.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
L=/usr/lib/llvm-18/lib
clang++-18 -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include "$here/extract.cpp" -o "$1.tmp.$$" \
  $L/libclang-cpp.so.18.1 $L/libLLVM.so.18.1 -Wl,-rpath,$L
mv "$1.tmp.$$" "$1"
