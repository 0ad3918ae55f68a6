#!/bin/bash
# Compiles the demonstration against the library in the current directory (/repo after build.sh) and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false TMPDIR=$work HOME=$work
g++ -std=c++17 -O1 -w -DOMPI_SKIP_MPICXX -I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi -I/usr/include/hdf5/openmpi \
  -I"$repo/_build/src/grid" -I"$repo/_build/src/grid/iteration" -isystem /usr/include/trilinos -DKOKKOS_DEPENDENCE -I"$repo/src" "$here/demo.cpp" -o "$work/demo" \
  -L"$repo/_build" -lschnek -Wl,-rpath,"$repo/_build" -L/usr/lib/x86_64-linux-gnu/hdf5/openmpi -lhdf5 -lmpi \
  $(sed -n 's/.*LINK_LIBRARIES = //p' "$repo/_build/build.ninja" | head -1) || exit 2
cd "$work" || exit 2
timeout -k 5 ${LIMIT:-60} mpirun --oversubscribe -np @NP@ ./demo
rc=$?
echo "demo exit $rc"
exit $rc
