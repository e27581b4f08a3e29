#!/bin/bash
# builds demo.cpp against the library that build.sh made and runs it
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -O1 -w -I/repo/src -I/repo/third_party -I"$d" "$d/demo.cpp" $(cat "$d/sources" 2>/dev/null) -Wl,--whole-archive /repo/_build/src/libTinyTorch_lib.a -Wl,--no-whole-archive -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
