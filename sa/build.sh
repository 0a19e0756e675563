#!/bin/bash
# Builds the libTooling exporter into build/ (no network; clang 18 is part of the sandbox).
set -e
cd "$(dirname "$0")/.."
mkdir -p build
h=$(sha256sum tool/exporter.cpp | cut -c1-16)
out=build/exporter-$h
[ -x "$out" ] && exit 0
tmp=$(mktemp build/exporter.XXXXXX)
g++ -O1 -fno-rtti -std=c++17 $(llvm-config-18 --cppflags) tool/exporter.cpp -o "$tmp" \
  /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
strip "$tmp"
chmod 755 "$tmp"
mv -f "$tmp" "$out"
