#!/bin/bash
# build_tsan.sh OBJDIR: /repo's sources and the harness with OpenMP on and ThreadSanitizer, on the thread stand-in of omp/gomp.cpp;
# leaves the program as ../h beside OBJDIR
R=${QK_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1
mkdir -p "$O"
F="-std=c++11 -w -O1 -g1 -D_QK_RANGE_CHECK_=1 -fno-access-control -ftrivial-auto-var-init=pattern -fsanitize=thread -fopenmp -I$R/src -I$H"
{ find $R/src -name '*.cpp' ! -path '*/example/*' ! -name main.cpp ! -path '*/spatial_solver/*' ! -path '*/temporal_solver/*'; ls $H/*.cpp; } | \
 xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$O"'/$(echo {} | tr / _).o || exit 255' || exit 1
g++ -std=c++11 -O1 -fsanitize=thread -c $H/omp/gomp.cpp -o $O/gomp.o || exit 1
g++ -fsanitize=thread $O/*.o -o $(dirname $O)/h -lpthread
