#!/bin/bash
# build_fuzz.sh OUTDIR: OUTDIR/fuzz, the libFuzzer target over all entry points
# of the working tree of $REPO (default /repo).  C and C++: clang with address
# and undefined-behaviour sanitizers and coverage; Fortran: gfortran with
# run-time checks and trapping integer overflow.
set -e
T=$(cd "$(dirname "$0")" && pwd); H=$T/../harness
out=$1; mkdir -p "$out/h"
SAN="-fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
bash "$T/build_impl.sh" "$out" clang++ clang gfortran "-O1 -g $SAN -fsanitize=fuzzer-no-link" "-O1 -g -fcheck=all -ftrapv -fbacktrace" &
p1=$!
g++ -std=gnu++17 -O1 -g -I"$H" -c "$H/fuzz.cpp" -o "$out/h/fuzz.o" &
p2=$!
wait $p1; wait $p2
clang++ $SAN -fsanitize=fuzzer "$out/h/fuzz.o" "$out/impl.a" -lgfortran -lquadmath -lm -o "$out/fuzz"
