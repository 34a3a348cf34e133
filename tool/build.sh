#!/bin/bash
# builds the analyser into $1 (directory)
set -e
OUT=$1; SRC=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
FLAGS="-std=c++17 -O1 -fno-rtti -w -I$(llvm-config-18 --includedir)"
cd "$SRC"
ls *.cpp | xargs -P 8 -I{} sh -c "if [ ! -f $OUT/{}.o ] || [ {} -nt $OUT/{}.o ] || [ core.h -nt $OUT/{}.o ]; then clang++-18 $FLAGS -c {} -o $OUT/{}.o || exit 255; fi"
clang++-18 "$OUT"/*.cpp.o -o "$OUT/czilint" -L"$(llvm-config-18 --libdir)" -lLLVM-18
