#!/bin/bash
# Builds demo.cpp against the library in the current directory (the repository,
# after its build) and runs it in a scratch directory that is removed afterwards.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
NP=$(sed -n 's|^// *NP *= *||p' "$HERE/demo.cpp" | head -1)
S=$(mktemp -d /tmp/hxhim-demo.XXXXXX) || exit 99
trap 'rm -rf "${S:?}"' EXIT
MPI=/usr/lib/x86_64-linux-gnu/openmpi
g++-11 -std=c++17 -g -O0 -DHXHIM_HAVE_LEVELDB=1 -DHXHIM_HAVE_ROCKSDB=1 \
    -I"$HERE" -isystem "$REPO/include" -isystem "$REPO/_build/include" \
    -isystem $MPI/include -isystem $MPI/include/openmpi \
    "$HERE/demo.cpp" -o "$S/demo" -rdynamic \
    -L"$REPO/_build/src" -lhxhim -lleveldb -lrocksdb -Wl,-rpath,"$REPO/_build/src" -L$MPI/lib -lmpi_cxx -lmpi -lpthread -ldl \
    > "$S/build.log" 2>&1 || { tail -20 "$S/build.log"; exit 99; }
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export HXHIM_DEMO_DIR="$S" TMPDIR="$S"
export DEMO_LIMIT=${DEMO_LIMIT:-60}
cd "$S" || exit 99
if [ "${NP:-1}" = 1 ]; then
    export OMPI_MCA_btl=self OMPI_MCA_pml=ob1 OMPI_MCA_ess_singleton_isolated=1
    timeout -k 2 $DEMO_LIMIT "$S/demo" > "$S/out.log" 2>&1 < /dev/null
else
    timeout -k 2 $DEMO_LIMIT mpirun --oversubscribe -np "$NP" --mca btl self,tcp \
        --mca btl_tcp_if_include lo --mca oob_tcp_if_include lo --mca pml ob1 \
        "$S/demo" > "$S/out.log" 2>&1 < /dev/null
fi
RC=$?
tail -15 "$S/out.log"
exit $RC
