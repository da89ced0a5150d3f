#!/bin/bash
# builds the demonstration beside this file against the library built in /repo and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -I ta-lib-rt/c/include -I "$D" "$D/demo.c" _build/lib/libta-lib-rt.a -lm -o "$T/demo" || exit 3
cd "$T" && timeout 100 ./demo
