#!/bin/bash
# build.sh REPO OUT: builds REPO's current tree out of tree with its own build system into OUT/lib (as
# shipped) and OUT/cov (same sources, coverage instrumentation) and links the drivers. Prints progress to stderr.
set -eu
REPO=$(realpath "$1"); OUT=$(realpath -m "$2"); HERE=$(dirname "$(realpath "$0")")
export LC_ALL=C CC=gcc CXX=g++ AWK=gawk
unset MAKEFLAGS MAKELEVEL 2>/dev/null || true
J=${JOBS:-$(nproc)}
mkdir -p "$OUT/lib" "$OUT/gen"
cd "$OUT/lib"
CFLAGS="-O2 -g" CXXFLAGS="-O2 -g" "$REPO/configure" --prefix="$OUT/inst" >configure.log 2>&1 || { tail -5 configure.log >&2; exit 3; }
[ -e "$REPO/libbid/bid_binarydecimal.c" ] || echo '/* placeholder */' > bid_binarydecimal.c
rm -rf "$OUT/cov"; cp -a "$OUT/lib" "$OUT/cov"
make -j"$J" libdfp.so.1 >make.log 2>&1 || { grep -m5 -i error make.log >&2; exit 3; }
if [ "${NOCOV:-0}" = 0 ]; then
  cd "$OUT/cov"
  sed -i "s#$OUT/lib#$OUT/cov#g" Makefile config.status 2>/dev/null || true
  make -j"$J" CPPFLAGS="-O1 -g0 -fsanitize-coverage=trace-pc,trace-cmp" libdfp.so.1 >make.log 2>&1 || { grep -m5 -i error make.log >&2; exit 3; }
fi
cd "$OUT"
python3 "$HERE/mkops.py" gen/ops_gen.h gen/ops_enum.h
bash "$HERE/locales.sh" "$OUT/locales" &
DEF="-U_FORTIFY_SOURCE -D__STDC_WANT_DEC_FP__=1 -D__STDC_WANT_IEC_60559_DFP_EXT__=1 -D__STDC_WANT_IEC_60559_BFP_EXT__=1"
gcc -O1 -g -w -std=gnu11 -fno-builtin $DEF -I"$OUT/gen" -I"$HERE" -I"$REPO/dfp" -c "$HERE/ops.c" -o ops.o &
g++ -O1 -g -w $DEF -I"$REPO/dfp" -c "$HERE/cxx.cpp" -o cxx.o &
gcc -O2 -g -w -std=gnu11 -I"$OUT/gen" -I"$HERE" -c "$HERE/gen.c" -o gen.o &
gcc -O2 -g -w -std=gnu11 -I"$OUT/gen" -I"$HERE" -c "$HERE/val.c" -o val.o &
gcc -O2 -g -w -std=gnu11 -frounding-math -I"$OUT/gen" -I"$HERE" -c "$HERE/main.c" -o main.o &
wait
for v in lib cov; do
  [ $v = cov ] && [ "${NOCOV:-0}" != 0 ] && continue
  ln -sf libdfp.so.1 $v/libdfp.so
  g++ -rdynamic main.o gen.o val.o ops.o cxx.o -o drv.$v -L$v -ldfp -Wl,-rpath,"$OUT/$v" -lm -lpthread -ldl
done
