#!/bin/bash
# builds the engine into /verif/build/vsym (idempotent)
set -e
cd "$(dirname "$0")"
OUT=../build; mkdir -p $OUT
src="vsym.cpp expr.cpp solver.cpp expr.h solver.h build.sh"
h=$(cat $src | sha256sum | cut -c1-16)
[ -x $OUT/vsym ] && [ "$(cat $OUT/vsym.hash 2>/dev/null)" = "$h" ] && exit 0
tmp=$(mktemp -d $OUT/tmp.XXXXXX)
CXX="g++ -O2 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -D_GNU_SOURCE -D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -D__STDC_LIMIT_MACROS -w"
$CXX -c vsym.cpp -o $tmp/vsym.o & p1=$!
$CXX -c expr.cpp -o $tmp/expr.o & p2=$!
$CXX -c solver.cpp -o $tmp/solver.o & p3=$!
wait $p1; wait $p2; wait $p3
g++ $tmp/vsym.o $tmp/expr.o $tmp/solver.o -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 -lpthread -o $tmp/vsym
mv $tmp/vsym $OUT/vsym
rm -f $tmp/vsym.o $tmp/expr.o $tmp/solver.o; rmdir $tmp
echo $h > $OUT/vsym.hash
