#!/bin/bash
# builds the source extractor (only if its source is newer)
set -e
cd "$(dirname "$0")"
if [ ! -x extract ] || [ extract.cc -nt extract ]; then
  L=/usr/lib/llvm-18
  g++ -O1 -std=c++17 -fno-rtti -I$L/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS extract.cc -o extract -L$L/lib -l:libclang-cpp.so.18.1 -lLLVM-18 -Wl,-rpath,$L/lib
fi
