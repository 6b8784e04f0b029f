#!/bin/bash
# build.sh OUTDIR  : library objects from /repo's current sources + the oracle
set -e
O=$1; R=${VP_REPO:-/repo}; H=$(dirname "$(readlink -f "$0")")
mkdir -p $O
F="-std=c++14 -O2 -DNDEBUG -w -fno-access-control -I$R/include -I/usr/include/eigen3 -I$H"
( find $R/src -name '*.cpp' ! -name 'steering_functions_node.cpp'; ls $H/*.cpp ) | xargs -P 8 -I{} sh -c 'g++ '"$F"' -c {} -o '"$O"'/$(echo {} | tr / _).o'
g++ $O/*.o -o $O/oracle
