#!/bin/bash
# Builds the simulator from the pscm sources at $1 (default /repo) into $2.
set -eu
SRC=${1:-/repo}; OUT=${2:?out dir}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CXX=${CXX:-clang++-18}
FLAGS="-std=c++20 -g -fno-pie -include limits.h -DPSCM_SIM -w -I$SRC/src/c -I$SRC/src -I$SRC"
WRAP="-Wl,--wrap=fopen,--wrap=tmpfile,--wrap=mmap,--wrap=exit,--wrap=popen,--wrap=pclose,--wrap=signal,--wrap=pthread_getattr_np,--wrap=pthread_attr_getstack"
objs=()
mk="$OUT/build.list"; : > "$mk"
for f in "$SRC"/src/c/*.cc; do
  o="$OUT/$(basename "$f" .cc).o"; objs+=("$o")
  echo "$CXX $FLAGS -c $f -o $o" >> "$mk"
done
echo "$CXX $FLAGS -Dmain=pscm_main -c $SRC/src/main.cc -o $OUT/pscm_main.o" >> "$mk"
echo "$CXX $FLAGS -O1 -I$HERE -c $HERE/sim.cc -o $OUT/sim_.o" >> "$mk"
# an embedding client that does not compile any more must not stop the other checks
echo "$CXX $FLAGS -I$HERE -c $HERE/capi.cc -o $OUT/sim_capi.o || $CXX $FLAGS -DCAPI_STUB -I$HERE -c $HERE/capi.cc -o $OUT/sim_capi.o" >> "$mk"
xargs -P 8 -I{} sh -c '{}' < "$mk"
$CXX -no-pie -g -o "$OUT/simbin.tmp" "${objs[@]}" "$OUT/pscm_main.o" "$OUT/sim_.o" "$OUT/sim_capi.o" $WRAP -ldl
mv "$OUT/simbin.tmp" "$OUT/simbin"
