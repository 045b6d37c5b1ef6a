#!/bin/bash
# check.sh <property> | check.sh replay <file> | check.sh trace <property> <session>
# Rebuilds from /repo's working tree, then runs the simulator.  VERIF_SEED and VERIF_TIER select seed and depth.
set -u
here=$(cd "$(dirname "$0")" && pwd)
what=sim
case "$*" in *C08* | *C09*) what=c ;; *C12*) what=r ;; esac # only these run the C libraries; the shared library of the Rust interface
"$here/build.sh" $what || exit 2
sim=/verif/target/sim/release/shogi_sim
case ${1:-} in
    replay | trace | list) exec $sim "$@" ;;
    *) exec $sim check "$1" ;;
esac
