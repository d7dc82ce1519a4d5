#!/bin/bash
# native.sh OUT HARNESS.cpp MODE [flags]: native build of a harness with the real code (MODE: asan | plain)
set -e
out=$1; h=$2; m=$3; shift 3
D=$(cd "$(dirname "$0")/.." && pwd)
S=""
[ "$m" = asan ] && S="-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr"
F="-std=c++20 -O1 -g $S -Wno-everything -I/repo/include -I/repo/src -I$D/harness"
d=$(mktemp -d)
clang++-18 $F "$@" -c $h -o $d/h.o & p1=$!
clang++-18 $F "$@" -c ${IDNA_CPP:-/repo/src/idna.cpp} -o $d/i.o & p2=$!
clang++-18 $F -c $D/harness/replay.cpp -o $d/r.o & p3=$!
E=""; n=0; FX=${F//-I\/repo\/include -I\/repo\/src/}
for x in $EXTRA_CPP; do clang++-18 $FX $EXTRA_FLAGS -c $x -o $d/e$n.o; E="$E $d/e$n.o"; n=$((n+1)); done
wait $p1 && wait $p2 && wait $p3 && clang++-18 $S -rdynamic $d/h.o $d/i.o $d/r.o $E -o $out -ldl
r=$?
rm -rf "$d"
exit $r
