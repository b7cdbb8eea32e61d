#!/bin/bash
# reverts.sh [PATTERN]: development aid: undoes each "fix:" commit of KNOWN_FINDINGS.txt in a scratch copy of /repo and
# shows whether its property's check reports it.
V=$(cd "$(dirname "$0")/.." && pwd)
grep "^fixed:.*$1" $V/KNOWN_FINDINGS.txt | while read -r _ prop hash rest; do
    id=${prop#property=}; S=$(mktemp -d /tmp/rev.XXXXXX)
    git clone -q --shared /repo $S/repo && cd $S/repo
    if git -c user.name=x -c user.email=x@x revert -n $hash >/dev/null 2>&1; then
        out=$(cd $V && REPO=$S/repo ./check.sh $id --out $S 2>&1); r=$?
        echo "$id $hash exit $r: $(echo "$out" | grep -m1 '^scenario')"
    else echo "$id $hash: does not revert cleanly"; fi
    cd $V; rm -rf "$S" $V/build/*_tmp_rev.${S#/tmp/rev.}*
done
