#!/bin/bash
# Compiles demo.cpp against the objects of the build in /repo, and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$tmp"' EXIT
b=$repo/_build/CMakeFiles
ar crs "$tmp/lib.a" $(find "$b/joedb_for_joedbc.dir" "$b/joedb_sources.dir" "$b/joedb_databases.dir" -name '*.o') || exit 9
cd "$tmp" || exit 9
gen=()
for s in "$here"/*.joedbc; do
 [ -f "$s" ] || continue
 cp "$s" "${s%.joedbc}.joedbi" "$tmp/" || exit 9
 name=$(basename "$s" .joedbc)
 "$repo/_build/joedbc" "$name" >/dev/null || exit 9
 gen+=("$tmp/$name/writable.cpp")
done
defines=$(grep -o -- "-D[A-Za-z_0-9=]*" "$repo/_build/compile_commands.json" | grep -v -e GTEST -e CURL -e SSH | sort -u)
g++ -std=c++20 -g -w $defines \
 -I"$tmp" -I"$here" -I"$repo/src" "$here/demo.cpp" "${gen[@]}" "$tmp/lib.a" -o demo \
 -lbrotlidec -lbrotlienc -lbrotlicommon -lpthread || exit 9
timeout 200 ./demo
