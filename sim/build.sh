#!/bin/bash
# build.sh OUTDIR [REPO] — harness against REPO's working tree
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=${2:-/repo}; mkdir -p "$out"; cd "$out"
I="-std=c++17 -O1 -g1 -fsanitize=thread -fno-gnu-unique -w -I$here/include -I$here -I$repo/include -I$repo/src"
(g++ $I -DSIM_ALL_INDEX_TYPES -c "$here/target.cpp" -o target.o 2>target.log || { echo "note: only int indices compile" >&2; g++ $I -c "$here/target.cpp" -o target.o; }) & p1=$!
g++ $I -c "$repo/src/main.cpp" -o cli.o & p2=$!
g++ -std=c++17 -O2 -g1 -fno-threadsafe-statics -fno-gnu-unique -Wall -Wno-misleading-indentation -c "$here/rt.cpp" -o rt.o & p3=$!
g++ -std=c++17 -O1 -g1 -fno-threadsafe-statics -fno-gnu-unique -Wall -Wno-misleading-indentation -Wno-unused-variable -Wno-unused-function -c "$here/scen.cpp" -o scen.o & p4=$!
g++ -std=c++17 -O2 -g1 -c "$here/rtnew.cpp" -o rtnew.o
wait $p1; wait $p2; wait $p3; wait $p4
R=""; for s in memcpy memmove memset memcmp malloc calloc free realloc aligned_alloc fopen fclose; do R="$R --redefine-sym $s=sim_$s"; done
R="$R --redefine-sym fopen64=sim_fopen64 --redefine-sym exit=sim_exit --redefine-sym _exit=sim__exit --redefine-sym quick_exit=sim_quick_exit --redefine-sym _Exit=sim__Exit"
objcopy --redefine-sym _Znwm=rt_new --redefine-sym _ZdlPv=rt_delete --redefine-sym _ZdlPvm=rt_delete_n rt.o rt2.o
objcopy --redefine-sym main=votess_cli_main $R cli.o cli2.o
objcopy $R target.o target2.o
ld -r --force-group-allocation -o code.o target2.o cli2.o
objcopy --wildcard --keep-global-symbol='tgt_*' --keep-global-symbol=votess_cli_main code.o code2.o
g++ -rdynamic -o scen.tmp rt2.o rtnew.o scen.o code2.o -pthread -ldl
mv scen.tmp scen
