#!/bin/bash
# Builds the fact extractor into /verif/build (idempotent, keyed on the source).
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$here/../build"
mkdir -p "$out"
key=$(sha256sum "$here/qbfacts.cpp" "$here/build.sh" | sha256sum | cut -c1-16)
if [ -x "$out/qbfacts" ] && [ "$(cat "$out/qbfacts.key" 2>/dev/null)" = "$key" ]; then exit 0; fi
L=/usr/lib/llvm-18
tmp="$out/qbfacts.$$"
clang++ -std=c++17 -w -O1 -fno-rtti -I$L/include "$here/qbfacts.cpp" -o "$tmp" \
    $L/lib/libclang-cpp.so.18.1 $L/lib/libLLVM-18.so -Wl,-rpath,$L/lib
mv "$tmp" "$out/qbfacts"
echo "$key" > "$out/qbfacts.key"
