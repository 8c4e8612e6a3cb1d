#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken.   run with cwd = repository root
here="$(cd "$(dirname "$0")" && pwd)"
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -DNDEBUG -w -Iinc "$here/demo.cpp" src/*.cpp -o "$t/demo" || exit 99
"$t/demo"
