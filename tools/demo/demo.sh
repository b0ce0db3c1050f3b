#!/bin/bash
# Builds demo.cpp with the sources of the current directory's tree and a stand-in for libgpkg, and runs it in a scratch
# directory of its own. Exit 0: behaves as it should.
H=$(cd "$(dirname "$0")" && pwd)
R=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
mkdir "$W/gen" "$W/run"
echo '#define HAVE_POSTGRES' > "$W/gen/geodiff_config.hpp"
F="-DSQLITE_CORE -DSQLITE_ENABLE_SESSION -DSQLITE_ENABLE_PREUPDATE_HOOK -DGEODIFF_STATIC -DHAVE_POSTGRES -I$W/gen -I$H -I$R/geodiff/src -I$R/geodiff/src/3rdparty -I$R/geodiff/src/drivers -I/usr/include/postgresql"
find "$R/geodiff/src" -name '*.cpp' ! -name geodiffinfo.cpp -print > "$W/list"
find "$R/geodiff/src" -name '*.c' -print >> "$W/list"
[ -f "$H/with_cli" ] && echo "$R/geodiff/src/geodiffinfo.cpp" > "$W/cli.list"
gcc -O1 -c $F -o "$W/gpkg.o" "$H/gpkg_stub.c" || exit 99
[ -f "$H/fakepg.cpp" ] && { g++ -std=c++17 -O1 -w -I/usr/include/postgresql -I"$H" -c "$H/fakepg.cpp" -o "$W/fakepg.o" || exit 99; }
cat "$W/list" | xargs -P 8 -I{} sh -c 'case "$1" in *.c) gcc -O1 -w '"$F"' -c "$1" -o "'"$W"'/$(echo "$1" | md5sum | cut -c1-12).o";; *) g++ -std=c++11 -O1 -w '"$F"' -c "$1" -o "'"$W"'/$(echo "$1" | md5sum | cut -c1-12).o";; esac' _ {} || exit 99
g++ -std=c++17 -O1 -w $F $(cat "$H/flags" 2>/dev/null) "$H/demo.cpp" "$W"/*.o -o "$W/demo" -lsqlite3 -lpq -lpthread -ldl || exit 99
cd "$W/run" || exit 99
export TMPDIR="$W/run/" GEODIFF_LOGGER_LEVEL=0
timeout 200 "$W/demo"
