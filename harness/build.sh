#!/bin/bash
# build.sh OUTDIR [extra flags]: compile /repo's current sources and the harness
R=${QK_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1; shift
mkdir -p "$O"
F="-std=c++11 -w -O1 -g0 -D_QK_RANGE_CHECK_=1 -fno-access-control -I$R/src -I$H $*"
{ find $R/src -name '*.cpp' ! -path '*/example/*' ! -name main.cpp ! -path '*/spatial_solver/*' ! -path '*/temporal_solver/*'; ls $H/*.cpp; } | \
 xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$O"'/$(echo {} | tr / _).o || exit 255' || exit 1
