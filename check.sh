#!/bin/bash
# check.sh <property> quick|thorough : builds the harness from the code as it is
# now and decides the property. Exit 0: it held; 1: VIOLATION line.
ID=$1
TIER=${2:-quick}
V=$(cd "$(dirname "$0")" && pwd)
SEED=${VERIF_SEED:-1}
export OMP_WAIT_POLICY=passive
mkdir -p "$V/evidence" "$V/replays" "$V/build"
cd "$V" || exit 2
case $ID in
C2[2-9])
    PY=/opt/vp/venv/bin/python
    D=$("$V/build_py.sh") || { echo "build failed"; exit 2; }
    PYTHONPATH=$D PYTHONDONTWRITEBYTECODE=1 exec "$PY" "$V/pycheck/run.py" --prop "$ID" --tier "$TIER" --seed "$SEED" \
        --known "$V/known_findings.txt" --evidence "$V/evidence/$ID.json" --replay-dir "$V/replays"
    ;;
C16)
    # A quarter of a coverage-guided search over the same generator first
    if [ "$TIER" = thorough ]; then
        "$V/fuzz.sh" "$ID" 8 240 "$SEED" "$V/build/fuzz-$ID"
        CRASH=$(ls "$V/build/fuzz-$ID"/crash-* "$V/build/fuzz-$ID"/timeout-* 2>/dev/null | head -1)
    fi
    D=$("$V/build.sh" asan) || { echo "build failed"; exit 2; }
    if [ -n "$CRASH" ]; then
        "$D/props" --prop "$ID" --tier "$TIER" --seed "$SEED" --known known_findings.txt \
            --evidence "evidence/$ID.json" --replay-dir replays --bytes "$CRASH" --budget 1 || exit 1
    fi
    exec "$D/props" --prop "$ID" --tier "$TIER" --seed "$SEED" --known known_findings.txt \
        --evidence "evidence/$ID.json" --replay-dir replays
    ;;
*)
    D=$("$V/build.sh" plain) || { echo "build failed"; exit 2; }
    exec "$D/props" --prop "$ID" --tier "$TIER" --seed "$SEED" --known known_findings.txt \
        --evidence "evidence/$ID.json" --replay-dir replays
    ;;
esac
