#!/bin/bash
# replay.sh FILE: executes a replay file against /repo's current tree and prints the trace.
HERE="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$HERE/target" RUSTFLAGS=""
(cd "$HERE/sim" && cargo build --offline --locked -q) || exit 2
exec "$HERE/target/debug/ksync-sim" replay "$@"
