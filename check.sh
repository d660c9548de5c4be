#!/bin/bash
# check.sh PROPERTY [quick|thorough] [more options of burnsim check]
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
P="$1"; TIER="${2:-quick}"; shift; shift || true
"$V/build.sh" || exit 2
exec "$V/target/sim/release/burnsim" check --verif "$V" --prop "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" \
  --subject "$V/target/subject/debug/burn_fm" --shim "$V/target/shim.so" "$@"
