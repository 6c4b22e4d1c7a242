#!/bin/bash
# mk.sh NAME [extra flags]: builds build/NAME.bc from contracts/NAME.cpp and /repo (developer helper)
set -e
cd /verif; INC="-I/repo/include -I/opt/vp/lib/shadow -I/verif/contracts"; D="-pthread -DBOOST_THREAD_THROW_IF_PRECONDITION_NOT_SATISFIED -DBOOST_THREAD_NO_LIB=1 -DBOOST_THREAD_POSIX -DBOOST_THREAD_BUILD_LIB=1 -DBOOST_ALL_NO_LIB -DBOOST_CHRONO_HEADER_ONLY_"
CF="-std=gnu++17 -O1 -Xclang -disable-llvm-passes -fno-access-control -fno-strict-aliasing -g -D_GLIBCXX_EXTERN_TEMPLATE=0 -emit-llvm -fno-builtin -w"
n=$1; shift
clang++-18 $CF $D $INC "$@" -c contracts/$n.cpp -o build/$n.h.bc &
for f in thread once; do [ build/src_$f.bc -nt /repo/src/pthread/$f.cpp ] || clang++-18 $CF $D $INC -c /repo/src/pthread/$f.cpp -o build/src_$f.bc & done
[ build/src_future.bc -nt /repo/src/future.cpp ] || clang++-18 $CF $D $INC -c /repo/src/future.cpp -o build/src_future.bc &
wait
llvm-link-18 build/$n.h.bc build/src_thread.bc build/src_once.bc build/src_future.bc build/rt_cxx.bc build/rt_pthread.bc -o build/$n.l.bc
opt-18 -passes='function(sroa,simplifycfg,instsimplify)' build/$n.l.bc -o build/$n.bc
