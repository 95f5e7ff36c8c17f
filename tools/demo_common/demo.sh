#!/bin/bash
# Compiles libexactreal from the current directory (with stand-ins for the git
# submodules that are not there) and runs demo.cc against it.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
sed "s#@libdir@#$W#" libexactreal/exact-real/local.hpp.in > "$W/local.hpp"
F="-std=c++17 -g1 -O1 -fPIC -pthread -I$D/stubs -I$W -Ilibexactreal"
for f in libexactreal/src/*.cc; do
  g++ $F -DBUILD_LIBEXACTREAL -c $f -o "$W/$(basename $f .cc).o" 2> "$W/$(basename $f .cc).log" &
done
g++ $F -c "$D/demo.cc" -o "$W/demo.o" &
wait
g++ "$W"/*.o -leanticxx -leantic -lflint -lgmpxx -lgmp -pthread -o "$W/demo" || exit 98
cd "$W"
timeout 120 ./demo
S=$?
echo "demo: status $S"
exit $S
