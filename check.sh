#!/bin/bash
# check.sh PROPERTY [quick|thorough]
# Builds the simulator around /repo's current working tree and searches for a
# violation of one property. Exit 0: held. Exit 1: a VIOLATION line was printed.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
PROP="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
export CARGO_TARGET_DIR="$HERE/target" CARGO_NET_OFFLINE=true RUSTFLAGS=""
unset RUST_BACKTRACE RUST_LOG
LOG="$HERE/out/build-$PROP.log"
mkdir -p "$HERE/out" "$HERE/evidence"
if ! (cd "$HERE/sim" && cargo build --offline --locked) >"$LOG" 2>&1; then
    tail -40 "$LOG"
    echo "check.sh: cannot build the simulator from /repo" >&2
    exit 2
fi
if [ "$TIER" = thorough ]; then
    PLANS="${KSIM_PLANS:-400000}"; SECS="${KSIM_SECS:-3000}"
    [ "$PROP" = C13 ] && PLANS="${KSIM_PLANS:-120000}"
else
    PLANS="${KSIM_PLANS:-16000}"; SECS="${KSIM_SECS:-240}"
    [ "$PROP" = C13 ] && PLANS="${KSIM_PLANS:-8000}"
fi
exec "$HERE/target/debug/ksync-sim" check --prop "$PROP" --tier "$TIER" --seed "$SEED" \
    --plans "$PLANS" --secs "$SECS" --workers "${KSIM_WORKERS:-8}" \
    --known "$HERE/known_findings.json" --out "$HERE/out" --evidence "$HERE/evidence/$PROP.json"
