#!/bin/bash
# build_pbt.sh OUTDIR [CXX CC FC FLAGS FFLAGS]: OUTDIR/pbt from the working
# tree of $REPO (default /repo)
set -e
T=$(cd "$(dirname "$0")" && pwd); H=$T/../harness
out=$1; mkdir -p "$out/h"
HX=${HX:-g++}; HFLAGS=${HFLAGS:--O2}
pids=()
for f in acc meta num hist extra main; do $HX -std=gnu++17 $HFLAGS -I"$H" -c "$H/$f.cpp" -o "$out/h/$f.o" & pids+=($!); done
bash "$T/build_impl.sh" "$@" & pids+=($!)
for p in "${pids[@]}"; do wait "$p"; done
$HX $HFLAGS $LFLAGS "$out"/h/*.o "$out/impl.a" -lrapidcheck -lgfortran -lquadmath -lm -lpthread -o "$out/pbt"
