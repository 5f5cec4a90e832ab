#!/bin/bash
# bash /opt/vp/test.sh OUT.json: builds test/googletest and runs each of its
# tests in its own process and directory, so that a crash or a hang costs one
# test only.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root
OUT=$(realpath -m "${1:?usage: test.sh OUT.json}")
WORK=/tmp/wt/_build/vp-run
echo '{"passed": [], "failed": []}' > "$OUT"

ninja -C /tmp/wt/_build googletest || { echo "build failed: no test was run"; exit 1; }

rm -rf "$WORK"
mkdir -p "$WORK"
: > "$WORK/results.txt"
export WORK BIN=/tmp/wt/_build/test/googletest
# OpenMPI as a single process on this host, as root, with no network.
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self OMPI_MCA_pml=ob1
# without this each process starts an orted daemon beside it
export OMPI_MCA_ess_singleton_isolated=1

run_one() {
    dir="$WORK/$1"
    mkdir -p "$dir" "$dir.tmp" && cd "$dir" || exit
    # isolated OpenMPI processes all have the same job id: a shared session
    # directory would be removed by one while another uses it
    export TMPDIR="$dir.tmp"
    if timeout -k 2 10 "$BIN" --gtest_filter="$1" > "$dir.log" 2>&1 < /dev/null &&
       grep -q '^\[  PASSED  \] 1 test\.' "$dir.log"; then
        echo "PASS $1" >> "$WORK/results.txt"
    elif grep -q '^\[  SKIPPED \] 1 test' "$dir.log"; then
        :
    else
        echo "FAIL $1" >> "$WORK/results.txt"
        echo "--- FAIL $1"; tail -n 30 "$dir.log"
    fi
}
export -f run_one

"$BIN" --gtest_list_tests 2> /dev/null |
    awk '/^[^ ].*\.( |$)/ { suite = $1; next } /^  / { if ((suite $1) !~ /DISABLED_/) print suite $1 }' > "$WORK/tests.txt"
# one at a time: the ChangeDatastoreName tests all use /tmp/hxhim-text
rm -rf /tmp/hxhim-text
timeout -k 5 780 xargs -I{} bash -c 'run_one "$1"' _ {} < "$WORK/tests.txt"

python3 /opt/vp/results.py "$OUT" "lines:$WORK/results.txt"
