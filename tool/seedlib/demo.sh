#!/bin/bash
# Builds demo.cpp against the objects of the current build and runs it in a scratch folder.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
B=/repo/_build
O=$B/CMakeFiles/scaleupROMObj.dir
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader
export OMPI_MCA_plm=isolated OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 HOME=/root
M=/usr/lib/x86_64-linux-gnu/openmpi
L=/usr/lib/x86_64-linux-gnu
g++ -std=gnu++14 -O1 -w -I$B/gen/include -I/usr/include/mfem -I/usr/include/hypre \
  -I/usr/include/hdf5/serial -I$M/include -I$M/include/openmpi -o "$T/demo" "$D/demo.cpp" \
  $O/repo/src/*.o $O/gen/src/*.o $L/hdf5/serial/libhdf5.so -llapack -lblas -lmfem -lHYPRE \
  -lmetis -lyaml-cpp $M/lib/libmpi_cxx.so $M/lib/libmpi.so -Wl,-rpath,$L/hdf5/serial:$M/lib \
  || { echo "demo does not build"; exit 0; }
cd "$T"
timeout 200 ./demo
