#!/bin/bash
# check.sh <ID> [explorer arguments]: builds the check <ID> from /repo's working tree and runs it.
# Exit 0: the property held on everything explored; 1: VIOLATION line printed; other: the check itself failed.
cd "$(dirname "$0")" || exit 2
ID=$1; shift
REPO=${REPO:-/repo}
mkdir -p build out evidence
TAG=$ID; [ "$REPO" = /repo ] || TAG=$ID${REPO//\//_}
BIN=build/bin-$TAG
build() # LOG BIN [make arguments]
{
    local log=$1 bin=$2; shift 2
    rm -f "$bin"
    # -k: a source that does not compile is left out; if the check needs it, the link fails.
    make -j"$(nproc)" -k CHECK="$ID" REPO="$REPO" "$@" objs harness-objs >"$log" 2>&1
    if ! make CHECK="$ID" REPO="$REPO" BIN="$bin" "$@" link >>"$log" 2>&1 || [ ! -x "$bin" ]; then
        grep -E "error|undefined reference" "$log" | grep -v "^rm -f" | cut -c1-300 | head -20; echo "check $ID: build failed (see $log)"; return 2
    fi
}
FAST=$(make -s CHECK="$ID" is-fast)
if [ -n "$FAST" ]; then
    build "build/$TAG-san.log" "$BIN-san" SANITIZED=1 & SAN=$!
    build "build/$TAG.log" "$BIN"; RC=$?
    wait $SAN || RC=2
    [ $RC = 0 ] || exit 2
    case " $* " in
    *" --replay "*) for a in "$@"; do [ -f "$a" ] && grep -q '^tier smoke' "$a" && BIN=$BIN-san; done ;;
    *" --only "*) ;;
    *) "./$BIN-san" --out "$PWD" "$@" --tier smoke || exit $? ;;
    esac
else
    build "build/$TAG.log" "$BIN" || exit 2
fi
exec "./$BIN" --out "$PWD" "$@"
