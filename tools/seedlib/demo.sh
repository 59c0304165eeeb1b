#!/bin/bash
# run with cwd /repo after build.sh: builds demo.cpp against the built parser library and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
g++ -std=c++20 -O0 -DNDEBUG -w -I"$D" -I"$R/parser" -I"$R/parser/fanuc" -I"$R/nclangsrv" "$D/demo.cpp" -o "$T/demo" -L"$R/vscode-client/out" -lparser -lpthread -Wl,-rpath,"$R/vscode-client/out"
cd "$T"
timeout 120 ./demo
