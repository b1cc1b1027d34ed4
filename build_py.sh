#!/bin/bash
# build_py.sh : builds the Python package, the command-line program and a plain C
# entry to the core library from REPO (default /repo) into a scratch directory,
# which it prints
set -e
REPO=${REPO:-/repo}
V=$(cd "$(dirname "$0")" && pwd)
PY=/opt/vp/venv/bin/python
CXX=${CXX:-g++}
P=$REPO/python/arcticpy
KEY=$( (cat "$REPO"/src/*.cpp "$REPO"/include/*.hpp "$P"/*.py "$P"/wrapper.pyx "$P"/src/*.cpp "$P"/include/*.hpp \
    "$V"/pycheck/shim.cpp "$V"/build_py.sh) | sha256sum | cut -c1-16)
D=$V/build/py-$KEY
if [ ! -e "$D/done" ]; then
    rm -rf "$V"/build/py-*
    mkdir -p "$D/arcticpy" "$D/obj"
    (
        cp "$P"/*.py "$D/arcticpy/"
        cp "$P/wrapper.pyx" "$D/obj/wrapper.pyx"
        INC=$($PY -c 'import numpy, sysconfig; print("-I" + numpy.get_include(), "-I" + sysconfig.get_paths()["include"])')
        F="-std=c++17 -O2 -fopenmp -fPIC -w $INC -I$REPO/include -I$P/include"
        pids=()
        (cd "$D/obj" && $PY -m cython -3 --cplus wrapper.pyx -o wrapper.cpp >/dev/null &&
            $CXX $F -O1 -DNPY_NO_DEPRECATED_API=0 -c wrapper.cpp -o wrapper.o) &
        pids+=($!)
        for f in "$P"/src/*.cpp; do
            $CXX $F -c "$f" -o "$D/obj/py_$(basename "$f" .cpp).o" &
            pids+=($!)
        done
        for f in "$REPO"/src/*.cpp; do
            $CXX $F -c "$f" -o "$D/obj/core_$(basename "$f" .cpp).o" &
            pids+=($!)
        done
        $CXX $F -c "$V/pycheck/shim.cpp" -o "$D/obj/shim.o" &
        pids+=($!)
        for p in "${pids[@]}"; do wait "$p"; done
        cd "$D/obj"
        mv core_main.o main.o
        $CXX -shared -fopenmp wrapper.o py_*.o core_*.o -lgsl -lgslcblas \
            -o "$D/arcticpy/wrapper$($PY -c 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))')"
        $CXX -shared -fopenmp shim.o core_*.o -lgsl -lgslcblas -o "$D/core.so"
        $CXX -fopenmp main.o core_*.o -lgsl -lgslcblas -o "$D/arctic"
        rm -r "$D/obj"
        touch "$D/done"
    ) >&2
fi
echo "$D"
