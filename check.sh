#!/bin/bash
# check.sh PROPERTY quick|thorough [extra driver arguments]   or   check.sh setup
# Builds the harness of the property from /repo's current tree and runs the seeded search.
cd "$(dirname "$(readlink -f "$0")")" || exit 3
export LC_ALL=C
mkdir -p build evidence replays
build() {   # build TARGET...
    exec 8>build/.lock
    flock 8
    # make goes by times only: when the content of the sources changed, drop what was made from them
    sum=$( (cd /repo && find src samples -type f -print0 | sort -z | xargs -0 sha256sum; cd /verif 2>/dev/null && cat Makefile sim/* harness/*) 2>/dev/null | sha256sum | cut -d' ' -f1)
    if [ "$(cat build/sources.sum 2>/dev/null)" != "$sum" ]; then
        find build -maxdepth 1 -name '*.o' -delete
        echo "$sum" > build/sources.sum
    fi
    if ! make -s -j8 "$@" > build/log.txt 2>&1; then
        echo "build failed" >&2; grep -m5 -E "error|Error" build/log.txt >&2
        exit 3
    fi
    exec 8>&-
}
if [ "$1" = setup ]; then build all; exit 0; fi
id=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
case $id in
    V*) h=vmem ;; J*) h=json ;; H*) h=http ;; N*) h=net ;; T*) h=tls ;; E*) h=endpoint ;; D*) h=diag ;; G*) h=gpio ;; S*) h=samples ;;
    *) echo "unknown property $id" >&2; exit 3 ;;
esac
build build/$h
rm -f replays/$id-*.replay replays/$id-*.replay.trace
exec build/$h check --property "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --evidence "$PWD/evidence/$id.json" \
    --replays "$PWD/replays" --known "$PWD/known-findings.txt" "$@"
