#!/bin/bash
# Exit 0 if the behaviour is right, nonzero otherwise. Run with cwd = the dune-istl source tree.
here="$(cd "$(dirname "$0")" && pwd)"; out="$(mktemp -d)"; trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -O1 -w -DHAVE_CONFIG_H -I"$here" -I"$PWD" -I/opt/dune/prefix/include "$here/demo.cc" -o "$out/demo" -L/opt/dune/prefix/lib -ldunecommon -Wl,-rpath,/opt/dune/prefix/lib || exit 3
timeout 60 "$out/demo"
