#!/bin/bash
# build.sh OUT: compiles the symbolic executor
cd "$(dirname "$0")" && g++ -std=c++17 -O2 -w -fno-rtti $(llvm-config-18 --cppflags) vsym.cpp -o "$1" -L"$(llvm-config-18 --libdir)" -lLLVM-18 -lz3 -lpthread
