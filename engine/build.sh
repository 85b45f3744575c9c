#!/bin/bash
# builds the analysers into $1
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=${1:-$here/../build}
mkdir -p "$out"
clang++-18 -std=c++20 -O2 -fexceptions -w -I"$here" $(llvm-config-18 --cppflags) "$here/sai.cpp" -o "$out/sai.tmp.$$" $(llvm-config-18 --ldflags --libs) 
mv "$out/sai.tmp.$$" "$out/sai"
