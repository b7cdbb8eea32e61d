#!/bin/bash
# plant.sh ID EDIT.py : development aid. Applies EDIT.py (run in a scratch copy of /repo) and keeps the change as
# seeded/ID/patch.diff if it builds, passes the stable tests, and seeded/ID/demo.sh tells it from the original.
# plant.sh ID : re-validates seeded/ID against /repo's HEAD.
V=$(cd "$(dirname "$0")/.." && pwd); ID=$1; EDIT=$2
S=$(mktemp -d /tmp/plant.XXXXXX); trap 'rm -rf "$S"' EXIT
git -C /repo archive HEAD | (mkdir -p $S/repo && tar x -C $S/repo); cd $S/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x
D=$V/seeded/$ID
(cd $S/repo && timeout 300 bash $D/demo.sh >$S/demo0.log 2>&1) || { echo "$ID: demo fails on the ORIGINAL"; tail -20 $S/demo0.log; exit 1; }
git checkout -q -- . ; git clean -qfdx
if [ -n "$EDIT" ]; then PYTHONPATH=$V/tools python3 "$EDIT" || exit 1; git diff > $D/patch.diff; else git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 1; }; fi
[ -s $D/patch.diff ] || { echo "$ID: empty patch"; exit 1; }
(export CC=gcc CXX=g++; cmake -S /opt/vp/cmake -B $S/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DREPO=$S/repo && ninja -C $S/b) >$S/build.log 2>&1 || { echo "$ID: build fails"; tail -20 $S/build.log; exit 1; }
$S/b/modbus_tests >$S/test.log 2>&1 || { echo "$ID: tests fail"; tail -30 $S/test.log; exit 1; }
(cd $S/repo && timeout 300 bash $D/demo.sh >$S/demo1.log 2>&1); r=$?
[ $r -ne 0 ] || { echo "$ID: demo PASSES with the change"; exit 1; }
grep -q "build failed\|error:" $S/demo1.log && { echo "$ID: demo does not build?"; tail $S/demo1.log; exit 1; }
echo "$ID: ok ($r: $(tail -1 $S/demo1.log))"
