#!/bin/bash
# Builds the library of the current directory together with demo.cc and runs it.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo-XXXXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
L=$PWD/libexactreal
mkdir "$T/exact-real" && sed 's#@libdir@#/nonexistent#' "$L/exact-real/local.hpp.in" > "$T/exact-real/local.hpp" || exit 99
export FLAGS="-std=c++17 -g0 -O0 -w ${DEMO_FLAGS:-} -DBUILD_LIBEXACTREAL -I$here/shim -I$T/exact-real -I$T -I$L" T
ls "$L"/src/*.cc "$here/demo.cc" | xargs -P 8 -I@ bash -c 'g++ $FLAGS -c @ -o "$T/$(basename @).o"' || exit 98
g++ $FLAGS "$T"/*.o -leanticxx -leantic -lflint -lgmpxx -lgmp -lpthread -o "$T/demo" || exit 97
cd "$T" && timeout -s KILL 120 ./demo
