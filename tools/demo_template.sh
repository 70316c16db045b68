#!/bin/bash
# builds demo.cpp against the freshly built library and runs it (exit 0: property holds)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
g++ -std=c++17 -O1 -fopenmp -DENABLE_OPENMP -DENABLE_MPI -I include/gwmodelpp -I include $(mpicxx --showme:compile 2>/dev/null) "$D/demo.cpp" _build/src/libgwmodel.a -o "$T/demo" -larmadillo -lopenblas -lgsl -lgslcblas $(mpicxx --showme:link 2>/dev/null) -fopenmp || exit 2
timeout 120 "$T/demo"
