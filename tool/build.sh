#!/bin/bash
# build the front half (bitcode -> flow graph dump); idempotent
set -e
D=$(cd "$(dirname "$0")" && pwd)
LC=/usr/lib/llvm-18/bin/llvm-config
OUT=${1:-$D/bin/irx}
mkdir -p "$(dirname "$OUT")"
if [ ! -x "$OUT" ] || [ "$D/irx.cc" -nt "$OUT" ]; then
	clang++ -O1 -w -std=c++17 $($LC --cxxflags) -frtti "$D/irx.cc" -o "$OUT.tmp.$$" $($LC --ldflags) -lLLVM-18
	mv "$OUT.tmp.$$" "$OUT"
fi
