#!/bin/bash
# cwd: /repo.  Builds demo.cpp with the library sources of the current tree in a scratch directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -w -fopenmp -include cstdint -I$R/lib/include -I$R/lib/src -I$D @FLAGS@"
pids=()
for f in estimator_state estimator_state_cache loss_fn ta_state tsetlini tsetlini_params tsetlini_state tsetlini_state_json box_muller_approx; do
    g++ $F -c "$R/lib/src/$f.cpp" -o "$T/$f.o" & pids+=($!)
done
g++ $F -c "$D/demo.cpp" -o "$T/demo.o" & pids+=($!)
for p in "${pids[@]}"; do wait "$p" || { echo "does not compile"; exit 3; }; done
g++ $F "$T"/*.o -o "$T/demo" -lpthread || exit 3
OMP_WAIT_POLICY=passive timeout 200 "$T/demo"
