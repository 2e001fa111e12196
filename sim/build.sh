#!/bin/bash
# Builds the simulator from /repo's working tree into a directory outside /repo.
# usage: build.sh OUTDIR          everything
#        build.sh --harness DIR   only the parts that do not depend on /repo, kept for later builds
set -e
REPO=${REPO:-/repo}; HERE=$(cd "$(dirname "$0")" && pwd)
KEY=$(cat "$HERE"/rt.cc "$HERE"/main.cc "$HERE"/*.hpp "$HERE"/*.h | sha256sum | cut -c1-20)
CACHE=${SIM_CACHE:-$HERE/../.build}
fail() { echo "build failed: $1" >&2; exit 3; }
pids=()
run() { "$@" & pids+=($!); }
finish() { for p in "${pids[@]}"; do wait $p || fail "compilation"; done; pids=(); }
harness() { for f in rt main; do run g++ -std=c++17 -O2 -g -w -fno-pie -fno-omit-frame-pointer -fno-optimize-sibling-calls -I$HERE -c $HERE/$f.cc -o "$1/h_$f.o"; done; }
if [ "$1" = --harness ]; then mkdir -p "$CACHE/$KEY.tmp"; harness "$CACHE/$KEY.tmp"; finish; [ -d "$CACHE/$KEY" ] && exit 0; mv "$CACHE/$KEY.tmp" "$CACHE/$KEY"; exit 0; fi
OUT=$1; mkdir -p "$OUT"; cd "$OUT"
INC="-I. -I$REPO/JSONQuery -I$REPO/DFABuilder/include -I$REPO/DFABuilder/interface -I$REPO/JSONPathParser"
UB="-fsanitize=bounds,shift,integer-divide-by-zero,unreachable -fsanitize-trap=all"
CF="-O1 -fno-omit-frame-pointer -fno-optimize-sibling-calls -g1 -w -femulated-tls -fno-builtin -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0 -fsanitize-coverage=inline-8bit-counters $UB -DJPSTREAM_SIM -D_GNU_SOURCE -fno-pie -fno-pic -ffunction-sections $INC"
flex --header-file=scanner_j.h -o scanner_j.c $REPO/JSONPathParser/scanner_j.l || fail flex
bison -Wnone -d -o parser_j.c $REPO/JSONPathParser/parser_j.y || fail bison
if [ -f "$CACHE/$KEY/h_main.o" ] && [ -f "$CACHE/$KEY/h_rt.o" ]; then cp "$CACHE/$KEY"/h_*.o .; else harness .; fi
CC="clang -std=gnu99 -Wno-implicit-function-declaration -Wno-int-conversion -Wno-incompatible-function-pointer-types -include stdlib.h -include string.h -include ctype.h $CF"
# without the building blocks if only they do not compile
shim() { $CC -c $HERE/shim.c -o r_shim.o 2>shim.err || { touch plain; $CC -DSHIM_PLAIN -c $HERE/shim.c -o r_shim.o; }; }
run shim
for f in $REPO/JSONQuery/*.c scanner_j.c parser_j.c; do run $CC -c $f -o r_$(basename $f .c).o; done
for f in $REPO/DFABuilder/src/*.cpp $REPO/DFABuilder/src/Lexer/*.cpp; do run clang++ -std=c++11 $CF -c $f -o r_x_$(basename $f .cpp).o; done
finish
# every C library call with an effect the simulator owns goes to the simulator
nm h_rt.o | awk '$2=="T" && $3 ~ /^sim_/ {print substr($3,5) " " $3}' > redefine.txt
for o in r_*.o; do objcopy --redefine-syms=redefine.txt $o || fail objcopy; done
ld -r --force-group-allocation -o repo_all.o r_*.o || fail link
nm repo_all.o | awk '$3 ~ /^shim_/ {print $3}' > keep.txt
objcopy --keep-global-symbols=keep.txt repo_all.o repo.o || fail objcopy
g++ -no-pie -o sim h_rt.o h_main.o repo.o -lpthread -lm || fail link
