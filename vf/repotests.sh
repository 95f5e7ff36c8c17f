#!/bin/bash
# Development aid: runs the repository's own Catch2 tests (also those that its
# build cannot compile here for lack of submodules) against the working tree.
cd "$(dirname "$0")/.."
L=$(python3 -c "from vf import build; print(build.library())")
T=$(mktemp -d)
for t in ${@:-arb arb.yap arf arf.yap cereal constraint_random_real_number cppyy random_real_number rational_real_number real_number_product}; do
  (g++ -std=c++17 -g1 -Istubs -I$L/include -I/repo/libexactreal -I/repo/libexactreal/test -I/opt/vp/include /repo/libexactreal/test/$t.test.cc /repo/libexactreal/test/main.cc $L/*.o -leanticxx -leantic -lflint -lgmpxx -lgmp -lCatch2 -pthread -o $T/$t > $T/$t.log 2>&1 && timeout 600 $T/$t > $T/$t.log 2>&1; echo "$t: $(tail -n 3 $T/$t.log | tr '\n' ' ')") &
done
wait
rm -r "$T"
