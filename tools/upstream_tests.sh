#!/bin/bash
# Builds and runs upstream's COMPLETE unit test suite (most of which /opt/vp/build.sh leaves out because
# exe4cpp and ser4cpp are absent) against the stand-ins over real asio. Not a check: it validates the
# stand-ins and the fix: commits. Usage: upstream_tests.sh [REPO]   (exit status of the test binary)
set -e
REPO=${1:-/repo}
V=$(cd "$(dirname "$0")/.." && pwd)
B=$(mktemp -d /tmp/upstream.XXXXXX)
trap 'rm -rf "$B"' EXIT
INC="-I$REPO/lib/src -I$REPO/lib/include -I$REPO/lib/tests/unit -I$V/standins/real -I$V/standins/common -I/opt/vp/cmake/compat"
FL="-std=c++17 -g -O1 -DASIO_STANDALONE -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DFMT_DEPRECATED_OSTREAM -fsanitize=address,undefined"
find "$REPO/lib/src" "$REPO/lib/tests/unit" -name '*.cpp' > "$B/list"
i=0; : > "$B/cmds"
while read -r f; do i=$((i+1)); echo "g++ $FL $INC -w -c $f -o $B/$i.o" >> "$B/cmds"; done < "$B/list"
xargs -P 8 -I{} sh -c '{}' < "$B/cmds"
g++ -fsanitize=address,undefined "$B"/*.o -o "$B/tests" -lCatch2Main -lCatch2 -lspdlog -lfmt -lpthread
cd "$B" && ASAN_OPTIONS=detect_leaks=0 timeout 300 ./tests ${TEST_ARGS:-}
