#!/bin/bash
# build_impl.sh OUTDIR [CXX CC FC FLAGS FFLAGS]: compiles the working tree of
# $REPO (default /repo) and the shims into the static library OUTDIR/impl.a
out=$1; CXX=${2:-g++}; CC=${3:-gcc}; FC=${4:-gfortran}; FLAGS=${5:--O3 -g -DNDEBUG}; FFLAGS=${6:-$FLAGS}
REPO=${REPO:-/repo}
H=$(cd "$(dirname "$0")/../harness" && pwd)
mkdir -p "$out"
pids=()
run() { "$@" & pids+=($!); }
for f in "$REPO"/src/cpp/*.cpp; do run $CXX -std=c++11 $FLAGS -I"$REPO"/src/cpp -c "$f" -o "$out/cpp_$(basename "$f" .cpp).o"; done
CDEF=()
case $CC in *clang*) # glibc's <complex.h> defines these for gcc only
   CDEF=("-DCMPLX(x,y)=__builtin_complex((double)(x),(double)(y))" "-DCMPLXF(x,y)=__builtin_complex((float)(x),(float)(y))" "-DCMPLXL(x,y)=__builtin_complex((long double)(x),(long double)(y))" -Wno-macro-redefined);;
esac
for f in "$REPO"/src/c/*.c; do run $CC -std=c11 "${CDEF[@]}" $FLAGS -I"$REPO"/src/c -c "$f" -o "$out/c_$(basename "$f" .c).o"; done
run $CXX -std=c++11 $FLAGS -I"$REPO"/src/cpp -I"$H" -c "$H/shim_cpp.cpp" -o "$out/shim_cpp.o"
run $CC -std=c11 $FLAGS -I"$REPO"/src/c -c "$H/shim_c.c" -o "$out/shim_c.o"
run $FC $FFLAGS -J"$out" -c "$H/shim_f.f90" -o "$out/shim_f.o"
# Fortran: in parallel; files that need another one's module are retried
todo=("$REPO"/src/fortran/*.f90)
for round in 1 2 3 4 5; do
   fp=(); left=()
   for f in "${todo[@]}"; do $FC $FFLAGS -I"$REPO"/src/fortran -J"$out" -c "$f" -o "$out/f_$(basename "$f" .f90).o" 2>"$out/f_$(basename "$f" .f90).log" & fp+=($!); done
   for i in "${!todo[@]}"; do wait "${fp[$i]}" || left+=("${todo[$i]}"); done
   todo=("${left[@]}")
   [ ${#todo[@]} = 0 ] && break
done
if [ ${#todo[@]} != 0 ]; then echo "cannot compile ${todo[*]}" >&2; cat "$out"/f_*.log >&2; exit 1; fi
for p in "${pids[@]}"; do wait "$p" || { echo "compilation failed" >&2; exit 1; }; done
rm -f "$out/impl.a"
ar rcs "$out/impl.a" "$out"/*.o
