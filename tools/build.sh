#!/bin/bash
# builds the bitcode extractor into /verif/build
set -e
cd "$(dirname "$0")/.."
mkdir -p build
if [ ! -x build/lixtract ] || [ tools/lixtract.cpp -nt build/lixtract ]; then
  t=build/lixtract.tmp.$$
  clang++-18 -O1 -std=c++17 -w $(llvm-config-18 --cxxflags | sed 's/-std=c++17//') -fno-exceptions tools/lixtract.cpp -o $t $(llvm-config-18 --ldflags) -lLLVM-18
  mv -f $t build/lixtract
fi
