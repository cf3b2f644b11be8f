#!/bin/bash
# build.sh OUTDIR [REPO] — the Python module of REPO's working tree, its C++ reference and the preloaded simulator
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$1; repo=${2:-/repo}; mkdir -p "$out"; cd "$out"
py=/usr/bin/python3
F="-std=c++17 -O1 -g1 -w -fPIC -fvisibility=hidden -I$here/../sim/include -I$here/../sim -I$repo/include -I$repo/src -I$($py -c 'import sysconfig;print(sysconfig.get_paths()["include"])')"
g++ $F -c "$repo/src/pybind11/pyvotess.cpp" -o py.o & p1=$!
g++ $F -c "$here/base.cpp" -o base.o & p2=$!
g++ $F -c "$here/sycl_serial.cpp" -o serial.o
g++ -std=c++17 -O1 -g1 -w -fPIC -shared -o libpysim.so "$here/pysim.cpp" -ldl -pthread
wait $p1; wait $p2
g++ -shared -o pyvotess.so py.o serial.o libpysim.so -Wl,-rpath,"$out" -pthread
g++ -shared -o libbase.so base.o serial.o libpysim.so -Wl,-rpath,"$out" -pthread
