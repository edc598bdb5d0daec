#!/bin/sh
# mkir.sh spec.cpp out.ll [extra flags]
s=$1; o=$2; shift 2
exec clang++-18 -std=gnu++17 -O0 -Xclang -disable-O0-optnone -ffp-contract=off -fno-math-errno -fclang-abi-compat=17 -S -emit-llvm -gline-tables-only -UNDEBUG -w -Wno-c++11-narrowing -I${VF_REPO:-/repo}/include -I/verif/specs "$@" "$s" -o "$o"
