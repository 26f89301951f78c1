#!/bin/bash
# build_platform.sh OUTDIR BITS: the extended-precision part of the working tree
# of $REPO for platforms whose long double is a double (64) or an IEEE
# quadruple-precision number (128), as a library OUTDIR/impl.a
out=$1; B=$2
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")/../harness" && pwd)
mkdir -p "$out"
rm -f "$out"/*.o "$out"/impl.a
pids=()
run() { "$@" & pids+=($!); }
for f in "$REPO"/src/cpp/*.cpp "$H/pl_cpp.cpp"; do run g++ -std=c++14 -O2 -DNDEBUG -mlong-double-$B -I"$REPO"/src/cpp -c "$f" -o "$out/cpp_$(basename "$f" .cpp).o"; done
for f in "$REPO"/src/c/*.c "$H/pl_c.c"; do run gcc -std=c11 -O2 -DNDEBUG -mlong-double-$B -I"$REPO"/src/c -c "$f" -o "$out/c_$(basename "$f" .c).o"; done
run gcc -O2 -w -DPL=$B -c "$H/pl_math.c" -o "$out/m.o"
for p in "${pids[@]}"; do wait "$p" || { echo "compilation failed" >&2; exit 1; }; done
nm "$out/m.o" | sed -n 's/.* T pl_\(.*\)$/\1 pl_\1/p' > "$out/syms"
for f in "$out"/c*_*.o; do objcopy --redefine-syms="$out/syms" "$f" || exit 1; done
# functions with a long double argument that are not replaced would be called with a wrong number
left=$(nm -u "$out"/c*_*.o | sed -n 's/^ *U \([a-z0-9]*l\)$/\1/p' | grep -v -x -E 'ceil|c?log1pl|pos_clogl|fail|cli[2-6]l|cl[2-6]l|li2l' | sort -u)
for s in $left; do
   if nm "$out"/*.o | grep -q " [TW] $s$"; then continue; fi
   echo "note: $s is not replaced" >&2
done
ar rcs "$out/impl.a" "$out"/*.o
