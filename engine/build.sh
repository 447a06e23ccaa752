#!/bin/bash
# builds the symbolic executor into $1
set -e
D=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
g++ -O2 -w -std=c++17 -c "$D/expr.cpp" -o "$O/expr.o" &
g++ -std=c++17 -O2 -w $(llvm-config --cxxflags | sed 's/-std=[^ ]*//; s/-fno-exceptions//') -fexceptions -c "$D/symex.cpp" -o "$O/symex.o"
wait
g++ -o "$O/symex.tmp" "$O/symex.o" "$O/expr.o" $(llvm-config --ldflags --libs irreader core support demangle --link-shared) -lz3
mv "$O/symex.tmp" "$O/symex"
