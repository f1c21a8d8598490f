#!/bin/bash
# builds the framework from the committed files: AST extractor, ASTs of /repo's sources, native library and harnesses
cd "$(dirname "$0")" || exit 2
mkdir -p build evidence
set -e
X=tools/extract/extract.cc
if [ ! -x build/fdbx ] || [ "$X" -nt build/fdbx ]; then
    clang++-18 -O1 -std=c++17 -fno-rtti -I/usr/lib/llvm-18/include -c $X -o build/fdbx.o
    clang++-18 build/fdbx.o -o build/fdbx /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib -lLLVM-18
    rm -f /verif/build/fdbx.o
fi
python3-vt engine/tu.py
python3-vt engine/world.py
python3-vt engine/nat.py $(cd native && ls h_*.cc | sed 's/\.cc$//')
for v in lemmas/*.v; do
    (cd build && coqc -q -o "$PWD/$(basename "$v" .v).vo" "../$v" > "$(basename "$v" .v).coq.log" 2>&1) || { cat "build/$(basename "$v" .v).coq.log"; exit 2; }
done
echo setup done
