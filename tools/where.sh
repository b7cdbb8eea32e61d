#!/bin/bash
# tools/where.sh ID: the source lines of the addresses in that check's violation.
cd "$(dirname "$0")/.."
for a in $(grep -o "+0x[0-9a-f]*" "out/$1-violation.txt" | sort -u); do echo "== $a"; addr2line -Cfie "build/bin-$1" "${a#+}" | paste - - | grep -v "invoke\|/usr/include" | head -8; done
