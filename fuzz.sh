#!/bin/bash
# fuzz.sh <property> <jobs> <seconds> <seed> <dir> : coverage-guided search with
# libFuzzer over the property's generator; leaves crash-* files in <dir>
ID=$1 JOBS=$2 SECS=$3 SEED=$4 OUT=$5
V=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
rm -rf "$OUT"
mkdir -p "$OUT/corpus" "$OUT/obj"
F="-O1 -g1 -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,undefined -fno-sanitize-recover=all -DENGINE_LIBFUZZER"
(
    for f in "$REPO"/src/*.cpp; do
        n=$(basename "$f" .cpp)
        [ "$n" = main ] || clang++ -std=c++11 -w $F -I"$REPO/include" -c "$f" -o "$OUT/obj/$n.o" &
    done
    for n in engine model ref p_mem; do
        clang++ -std=c++17 -w $F -I"$REPO/include" -I"$V/harness" -c "$V/harness/$n.cpp" -o "$OUT/obj/h_$n.o" &
    done
    wait
    clang++ -fsanitize=fuzzer,address,undefined "$OUT"/obj/*.o -lgsl -lgslcblas -o "$OUT/fuzz"
) >&2 || exit 2
cd "$OUT" || exit 2
# Seeds: random inputs of the size of a typical case
python3 - "$SEED" <<'P'
import random, sys
r = random.Random(int(sys.argv[1]))
for i in range(200):
    open(f"corpus/s{i}", "wb").write(bytes(r.randrange(256) for _ in range(r.choice([60, 200, 600]))))
P
for j in $(seq "$JOBS"); do
    FUZZ_PROP=$ID ASAN_OPTIONS=detect_leaks=0 timeout $((SECS + 60)) ./fuzz corpus -seed=$((SEED * 100 + j)) \
        -max_total_time="$SECS" -timeout=60 -max_len=4096 -rss_limit_mb=3000 -artifact_prefix="$OUT/" -reload=10 \
        > "fuzz$j.log" 2>&1 &
done
wait
grep -h "^Done\|^#.*DONE\|stat::number_of" fuzz*.log | tail -20
