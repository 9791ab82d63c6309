#!/bin/bash
# Builds the demonstration against the sources in the working directory, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
flags="-std=c++11 -w -Wl,-z,muldefs -pthread -g -O0 -DREFLECT_USE_EXCEPTIONS=1 -Isrc "
lib=$(sed 's/#.*//' CMakeLists.txt | grep -o 'src/[A-Za-z0-9_/]*\.cpp' | sort -u)
for f in $lib "$here/demo.cpp"; do echo "$f"; done |
    xargs -P8 -I{} sh -c "g++ $flags -c '{}' -o $tmp/\$(echo '{}' | tr / _).o" || exit 2
g++ $flags "$tmp"/*.o -o "$tmp/demo" || exit 2
run=""; $run true 2> /dev/null || run=
cd "$tmp" && timeout 120 $run ./demo
