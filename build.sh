#!/bin/bash
# build.sh plain|asan : builds the harness against REPO (default /repo), prints the directory
set -e
VARIANT=${1:-plain}
REPO=${REPO:-/repo}
V=$(cd "$(dirname "$0")" && pwd)
CXX=${CXX:-g++}
LIBSRC=()
for f in "$REPO"/src/*.cpp; do
    f=$(basename "$f" .cpp)
    [ "$f" = main ] || LIBSRC+=("$f")
done
case $VARIANT in
plain) F="-O2 -g1 -D_GLIBCXX_ASSERTIONS -fopenmp" ;;
asan) F="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -fopenmp" ;;
esac
KEY=$( (cat "$REPO"/src/*.cpp "$REPO"/include/*.hpp "$V"/harness/*; echo "$VARIANT $F") | sha256sum | cut -c1-16)
D=$V/build/$VARIANT-$KEY
if [ ! -x "$D/props" ]; then
    rm -rf "$V"/build/"$VARIANT"-*
    mkdir -p "$D"
    (
        pids=()
        for f in "${LIBSRC[@]}"; do
            $CXX -std=c++11 -fPIC $F -I"$REPO/include" -c "$REPO/src/$f.cpp" -o "$D/$f.o" &
            pids+=($!)
        done
        # (where members of the library's classes are not there any more, properties
        # are decided by images alone, or else left out)
        for f in "$V"/harness/*.cpp; do
            case $f in */p_*) OPT=true ;; *) OPT=false ;; esac
            C="$CXX -std=c++17 -w $F -I$REPO/include -I$V/harness -c $f -o $D/h_$(basename "$f" .cpp).o"
            { $C || { $OPT && $C -DVERIF_IMAGES_ONLY; } || $OPT; } &
            pids+=($!)
        done
        for p in "${pids[@]}"; do wait "$p"; done
        $CXX $F "$D"/*.o -lgsl -lgslcblas -o "$D/props.tmp"
        mv "$D/props.tmp" "$D/props"
        rm -f "$D"/*.o
    ) >&2
fi
echo "$D"
