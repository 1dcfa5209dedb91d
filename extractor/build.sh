#!/bin/bash
# Builds the extractor into /verif/.build (ignored by git).
set -e
cd "$(dirname "$0")"
out=../.build; mkdir -p "$out"
if [ -x "$out/extract" ] && [ "$out/extract" -nt extract.cpp ]; then exit 0; fi
lib=$(ls /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18* /usr/lib/llvm-18/lib/libclang-cpp.so* 2>/dev/null | head -1)
clang++-18 -std=c++17 -O0 -fno-rtti $(llvm-config-18 --cxxflags | sed "s/-std=[^ ]*//;s/-O[0-9]//") extract.cpp -o "$out/extract.tmp" "$lib" $(llvm-config-18 --ldflags --libs --system-libs) -w
mv "$out/extract.tmp" "$out/extract"
