#!/bin/bash
# builds the extractor into $1
set -e
cd "$(dirname "$0")"
g++ -O1 -std=c++17 -fno-rtti -w -I/usr/lib/llvm-18/include -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -D_GNU_SOURCE extract.cpp -o "$1.tmp" -L/usr/lib/llvm-18/lib -l:libclang-cpp.so.18.1 -l:libLLVM-18.so
mv "$1.tmp" "$1"
