#!/bin/bash
# try.sh SEEDED-ID|EDIT.py CHECK [args]: development aid: runs a check against a scratch copy of /repo with the change applied.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; CHK=$2; shift 2
[ -f "$ID" ] && EDIT=$(realpath "$ID")
S=$(mktemp -d /tmp/try.XXXXXX); mkdir -p $S/repo && git -C /repo archive ${BASE:-HEAD} | tar x -C $S/repo && cd $S/repo && git init -q .
if [ -n "$EDIT" ]; then PYTHONPATH=$V/tools python3 "$EDIT"; else git apply $V/seeded/$ID/patch.diff; fi || { rm -rf "$S"; exit 3; }
cd $V && REPO=$S/repo ./check.sh $CHK --out $S "$@"; r=$?
rm -rf "$S" $V/build/*_tmp_try.${S#/tmp/try.}*; echo "$ID $CHK exit $r"
