#!/bin/bash
# build.sh OUTDIR NAME: the library's current sources with sanitizers, and the harness NAME
set -e
out=$1; name=$2
here=$(cd "$(dirname "$0")" && pwd)
R=${VC_REPO:-/repo}/cloudini_lib
FL="-std=c++20 -O1 -g1 -msse4.1 -fno-omit-frame-pointer -fsanitize=address,bounds,shift,null,vptr,return,unreachable,integer-divide-by-zero -fno-sanitize-recover=all -w -I$R/include -I$R/src"
pids=()
for f in $R/src/*.cpp; do
  b=$(basename $f .cpp)
  case $b in wasm_functions|pcl_conversion) continue;; esac
  clang++ $FL -c $f -o $out/lib_$b.o & pids+=($!)
done
extra=$(sed -n 's|^// FLAGS: ||p' $here/$name.cpp)
libs=$(sed -n 's|^// LIBS: ||p' $here/$name.cpp)
srcs=$(sed -n 's|^// SRC: ||p' $here/$name.cpp)
( clang++ $FL $extra -I$here -c $here/$name.cpp -o $out/$name.o || clang++ $FL $extra -DNAT_PUBLIC_ONLY -I$here -c $here/$name.cpp -o $out/$name.o ) & pids+=($!)
for s in $srcs; do clang++ $FL $extra -c $R/src/$s -o $out/lib_x_$s.o & pids+=($!); done
for p in ${pids[@]}; do wait $p; done
clang++ $FL $out/$name.o $out/lib_*.o -llz4 -lzstd -lpthread $libs -o $out/$name
