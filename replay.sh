#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's current tree.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
"$V/build.sh" || exit 1
exec "$V/target/sim/release/burnsim" replay --verif "$V" --subject "$V/target/subject/debug/burn_fm" --shim "$V/target/shim.so" "$@"
