#!/bin/bash
# builds /verif/.work/bin/astfacts (clang 18 libTooling)
set -e
here=$(cd "$(dirname "$0")" && pwd)
out="$here/../.work/bin"; mkdir -p "$out"
L=/usr/lib/llvm-18
CLANGCPP=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* $L/lib/libclang-cpp.so* 2>/dev/null | head -1)
CXX=/usr/lib/llvm-18/bin/clang++; [ -x "$CXX" ] || CXX=g++
$CXX -std=c++17 -O1 -fno-rtti -fno-exceptions -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w \
  "$here/astfacts.cpp" -o "$out/astfacts.tmp.$$" $CLANGCPP -L$L/lib -lLLVM-18 -Wl,-rpath,$L/lib
mv "$out/astfacts.tmp.$$" "$out/astfacts"
