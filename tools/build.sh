#!/bin/bash
# Build the fact extractor into /verif/build (git-ignored).
set -e
here="$(cd "$(dirname "$0")/.." && pwd)"
mkdir -p "$here/build"
out="$here/build/extract"
src="$here/tools/extract/extract.cpp"
if [ -x "$out" ] && [ "$out" -nt "$src" ]; then exit 0; fi
L=/usr/lib/llvm-18
"$L/bin/clang++" -std=c++17 -O1 -fno-rtti -fno-exceptions -I"$L/include" \
  -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS \
  "$src" -o "$out.tmp.$$" -L"$L/lib" -Wl,-rpath,"$L/lib" -l:libclang-cpp.so.18.1 -lLLVM-18
mv "$out.tmp.$$" "$out"
