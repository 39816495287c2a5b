#!/bin/bash
# builds the analysis tools into /verif/build (offline, ~15 s)
set -e
here=$(cd "$(dirname "$0")" && pwd); out=$here/../build; mkdir -p $out
if [ ! -x $out/irx ] || [ $here/irx.cpp -nt $out/irx ]; then
  /usr/bin/clang++-18 -O1 $(/usr/bin/llvm-config-18 --cxxflags) -fexceptions $here/irx.cpp -o $out/irx.tmp.$$ -L/usr/lib/llvm-18/lib -lLLVM-18
  mv $out/irx.tmp.$$ $out/irx
fi
