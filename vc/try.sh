#!/bin/bash
# dev helper: try.sh FILE.cc [contract] [opts]
set -e
f=$1; shift
mkdir -p /tmp/w
b=/tmp/w/$(basename $f .cc)
clang++-18 -std=c++20 -O0 -Xclang -disable-O0-optnone -gline-tables-only -S -emit-llvm -DVP_SYM -w -I/verif/contracts -I/repo/tools -I/repo/c++ -I/repo/tools/common -I/usr/include/eigen3 -I/verif/stubs -DFMT_HEADER_ONLY -I/repo/c++/symmetry $(grep -h "^//@ flags" $f | cut -d: -f2) $f -o $b.ll
opt-18 -passes='sroa,simplifycfg,early-cse,loop-simplify' -S $b.ll -o $b.opt.ll
cd /verif/vc && exec timeout 850 python3-vt -u one.py $b.opt.ll "$@"
