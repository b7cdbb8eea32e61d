#!/bin/bash
# Run in the root of a modbus-cpp tree: exit 0 if the property's example holds, nonzero otherwise.
# Builds the whole library over the installed asio, with the stand-ins for exe4cpp and ser4cpp in inc/.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
FLAGS="-std=c++17 -O0 -w -DASIO_STANDALONE -DSPDLOG_FMT_EXTERNAL -DSPDLOG_COMPILED_LIB -DFMT_DEPRECATED_OSTREAM -I$D/inc -I$R/lib/include -I$R/lib/src"
{ find "$R/lib/src" -name '*.cpp'; echo "$D/demo.cpp"; } | xargs -P 8 -I{} sh -c "o=\$(echo {} | tr / _); g++ $FLAGS -c {} -o $T/\$o.o" || { echo build failed; exit 99; }
g++ "$T"/*.o -o "$T/demo" -lspdlog -lfmt -lpthread || { echo build failed; exit 99; }
timeout 120 "$T/demo"
