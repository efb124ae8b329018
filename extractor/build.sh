#!/bin/bash
# build.sh OUT : compiles the extractor
set -e
cd "$(dirname "$0")"
exec clang++-18 -O1 -fno-rtti -std=c++17 -w $(llvm-config-18 --cxxflags | tr ' ' '\n' | grep -E '^-(I|D)' | tr '\n' ' ') \
  extract.cc -o "$1" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
