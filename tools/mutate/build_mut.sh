#!/bin/bash
# builds the rewriting tool: build_mut.sh OUT
g++ -std=c++17 -O1 -w "$(dirname "$0")/mut.cpp" -o "$1" $(llvm-config-18 --cxxflags | sed 's/-std=[^ ]*//;s/-fno-exceptions//') -I/usr/lib/llvm-18/include -fno-rtti /usr/lib/llvm-18/lib/libclang-cpp.so.18.1 -L/usr/lib/llvm-18/lib $(ls /usr/lib/llvm-18/lib/libLLVM*.so* | head -1)
