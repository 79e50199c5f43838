#!/bin/sh
# Builds the fact exporter (offline; needs only clang-18 and llvm-18-dev).
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
CFG=/usr/lib/llvm-18/bin/llvm-config
clang++-18 -std=c++17 -O1 $($CFG --cxxflags | sed 's/-std=[^ ]*//') -fexceptions engine/irx.cpp -o build/irx.tmp $($CFG --ldflags --libs core irreader support demangle)
mv build/irx.tmp build/irx
echo "setup done"
