#!/bin/bash
# Builds the source extractor (clang tooling). Offline; about 20 s.
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
if [ build/dpf-export -nt tool/exporter.cc ]; then exit 0; fi
clang++-18 -std=c++17 -O1 -fno-rtti -fno-exceptions -w $(llvm-config-18 --cxxflags) \
  tool/exporter.cc -o build/dpf-export.tmp -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -lLLVM-18
mv build/dpf-export.tmp build/dpf-export
