#!/bin/bash
# Builds the AST lowering tool into /verif/build (git-ignored) from the committed source.
set -e
cd "$(dirname "$0")"
B=../build
mkdir -p $B
H=$(sha256sum extract.cpp | cut -c1-16)
if [ -x $B/extract ] && [ "$(cat $B/extract.hash 2>/dev/null)" = "$H" ]; then exit 0; fi
T=$(mktemp $B/extract.XXXXXX)
clang++ -std=c++17 -fno-rtti -O1 extract.cpp $(llvm-config-18 --cxxflags) /usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1 /usr/lib/x86_64-linux-gnu/libLLVM-18.so -o $T
mv $T $B/extract
echo $H > $B/extract.hash
