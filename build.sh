#!/bin/bash
# Builds the program under test from /repo's working tree, the interposed
# library and the simulator. All output goes to /verif/target.
set -u
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
R="${BURNSIM_REPO:-/repo}"
T="$V/target"
mkdir -p "$T" || exit 1
exec 9>"$T/.lock"; flock 9
fail() { echo "build of $1 failed:" >&2; tail -30 "$T/build.log" >&2; exit 1; }
gcc -O2 -fno-delete-null-pointer-checks -fPIC -shared -o "$T/shim.so" "$V/sim/shim/shim.c" -ldl -lpthread >"$T/build.log" 2>&1 || fail shim
cargo build --manifest-path "$R/Cargo.toml" --target-dir "$T/subject" --offline --locked >"$T/build.log" 2>&1 || fail "$R"
(cd "$V/sim" && cargo build --release --offline --locked --target-dir "$T/sim") >"$T/build.log" 2>&1 || fail simulator
