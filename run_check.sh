#!/bin/bash
# run_check.sh <property> [quick|thorough] [--replay FILE] [engine options]
# Builds the library from /repo's working tree together with the property's harness and runs it.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${REPO:-/repo}"
ID="$1"; shift
TIER="${VERIF_TIER:-quick}"
case "${1:-}" in quick|thorough) TIER="$1"; shift;; esac
B="$HERE/build/$ID-$TIER"
rm -rf "$B"; mkdir -p "$B" || exit 2
cd "$B" || exit 2
BS="$HERE/src/build.sh"
# shellcheck source=src/build.sh
. "$BS"
build_check "$ID" "$TIER" >build.log 2>&1 || { echo "build failed:"; tail -n 40 build.log; exit 2; }
FUZZ=()
for U in unbuildable.*; do [ -f "$U" ] && export ENGINE_UNBUILDABLE="a build configuration does not compile: $(cat "$U")"; done
if [ "$TIER" = thorough ] && [ "$#" = 0 ] && [ -x ./fuzz ]; then
    run_fuzz "$ID"
fi
REPLAY32=""; for A in "$@"; do case "$A" in *replay32-*) REPLAY32=1;; esac; done
for U in b32/unbuildable.*; do [ -f "$U" ] && export ENGINE_UNBUILDABLE="the 32-bit build does not compile: $(cat "$U")"; done
if [ "$REPLAY32" ]; then
    [ -x b32/check ] || { echo "no 32-bit program could be built"; exit 2; }
    ./b32/check --tier "$TIER" --verif "$HERE" --dir "$B/b32" ${WORKERS:+--workers "$WORKERS"} "$@"; exit
fi
if [ -x b32/check ] && [[ " $* " != *" --replay "* ]]; then
    ./b32/check --tier "$TIER" --verif "$HERE" --dir "$B/b32" ${WORKERS:+--workers "$WORKERS"} "$@"
    case "$?" in 0) FUZZ+=(--also32 "$B/b32/counts");; 1) [ "${KEEP:-}" ] || rm -rf "$B"; exit 1;; *) echo "note: the 32-bit program gave no answer";; esac
elif [ ! "${ARCH32:-}" ] && [[ "$ALSO32" == *" $ID "* ]]; then
    echo "note: no 32-bit part: $(tail -n 1 build32.log)"
fi
./check --tier "$TIER" --verif "$HERE" --dir "$B" ${WORKERS:+--workers "$WORKERS"} "${FUZZ[@]}" "$@"
RC=$?
[ "${KEEP:-}" ] || rm -rf "$B"
case "$RC" in 0|1) exit $RC;; *) echo "check ended with status $RC"; exit 2;; esac
