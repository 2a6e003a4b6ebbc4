#!/bin/bash
# Builds the AST extractor into /verif/build (ignored by git) if it is missing or older than its source.
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$here/../build
mkdir -p "$out"
if [ -x "$out/extract" ] && [ "$out/extract" -nt "$here/extract.cpp" ]; then exit 0; fi
tmp=$(mktemp "$out/extract.XXXXXX")
trap 'rm -f "$tmp"' EXIT
/usr/bin/clang++ -w -O1 $(/usr/lib/llvm-18/bin/llvm-config --cxxflags) -fno-rtti "$here/extract.cpp" -o "$tmp" \
  -L/usr/lib/llvm-18/lib -L/usr/lib/x86_64-linux-gnu -l:libclang-cpp.so.18.1 -lLLVM-18
chmod +x "$tmp"
mv "$tmp" "$out/extract"
