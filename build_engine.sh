#!/bin/bash
# builds the verifier and the runtime contracts into /verif/build (git-ignored)
set -e
cd "$(dirname "$0")"; mkdir -p build
if [ ! -x build/vc ] || [ engine/vc.cpp -nt build/vc ] || [ engine/expr.h -nt build/vc ]; then
  clang++-18 -O2 -w -std=c++17 $(llvm-config-18 --cxxflags | sed 's/-fno-exceptions//') -fexceptions -o build/vc.tmp engine/vc.cpp $(llvm-config-18 --ldflags) -lLLVM-18 -lz3; mv build/vc.tmp build/vc; fi
CF="-std=gnu++17 -O1 -Xclang -disable-llvm-passes -fno-access-control -fno-strict-aliasing -g -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -fno-builtin -w"
for f in rt_cxx rt_pthread; do if [ ! -f build/$f.bc ] || [ contracts/$f.cpp -nt build/$f.bc ] || [ contracts/vc_env.h -nt build/$f.bc ] || [ contracts/vc.h -nt build/$f.bc ]; then clang++-18 $CF -c contracts/$f.cpp -o build/$f.bc; fi; done
