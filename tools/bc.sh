#!/bin/bash
# bc.sh OUT.bc HARNESS.cpp [extra clang flags]: bitcode of /repo's current sources linked with a harness
set -e
out=$1; h=$2; shift 2
F="-std=c++20 -O1 -Xclang -disable-llvm-passes -D_GLIBCXX_EXTERN_TEMPLATE=0 -gline-tables-only -I/repo/include -I/repo/src -I$(dirname $0)/../harness -emit-llvm -c -Wno-everything"
# big-endian target: the C++ headers of this machine with word size and byte order replaced
[ -n "$BE" ] && F="-target s390x-linux-gnu -isystem $(dirname $0)/../harness/be -nostdinc++ -isystem /usr/include/c++/13 -isystem /usr/include/x86_64-linux-gnu/c++/13 -isystem /usr/include/x86_64-linux-gnu $F"
d=$(mktemp -d)
clang++-18 $F "$@" $h -o $d/h.bc & p1=$!
clang++-18 $F "$@" ${IDNA_CPP:-/repo/src/idna.cpp} -o $d/i.bc & p2=$!
E=""; n=0; FX=${F//-I\/repo\/include -I\/repo\/src/}
# further translation units
for x in $EXTRA_CPP; do clang++-18 $FX $EXTRA_FLAGS $x -o $d/e$n.bc; E="$E $d/e$n.bc"; n=$((n+1)); done
clang++-18 $F $RT $(dirname $0)/../harness/rt.cpp -o $d/rt.bc && E="$E $d/rt.bc"
wait $p1 && wait $p2 && llvm-link-18 $d/h.bc $d/i.bc $E -o $d/l.bc && opt-18 -passes=sroa $d/l.bc -o $out
r=$?
rm -rf "$d"
exit $r
