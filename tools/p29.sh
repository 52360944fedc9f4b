#!/usr/bin/env bash
# p29.sh quick|thorough: the check of P29. The workload runs under ThreadSanitizer, with an instrumented
# standard library, in many short processes (a process ends at its first report).
set -u
TIER=${1:-quick}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")/.." && pwd)
EV="$HERE/evidence"
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUST_BACKTRACE=0
export CARGO_TARGET_DIR="$HERE/target/tsan"
export RUSTFLAGS="-Zsanitizer=thread"
TGT=x86_64-unknown-linux-gnu
LOG="$EV/P29.build.log"
if ! cargo +nightly build --offline --locked -Zbuild-std --target $TGT --manifest-path "$HERE/racechk/Cargo.toml" >"$LOG" 2>&1; then
  grep -E '^error|^ *-->' "$LOG" | head -20
  echo "the harness of P29 does not build against /repo (see $LOG)"
  exit 3
fi
unset RUSTFLAGS
BUDGET=200
[ "$TIER" = thorough ] && BUDGET=1500
export TSAN_OPTIONS="halt_on_error=1:report_thread_leaks=0:history_size=4" MON_MEM_GB=0
BIN="$CARGO_TARGET_DIR/$TGT/debug/racechk"
exec "$BIN" P29 --tier "$TIER" --seed "$SEED" --budget "$BUDGET" --workers 12 --out "$EV/P29.json" --replay-dir "$EV/replay" \
  --known "$HERE/known-findings.txt" --cmd "TSAN_OPTIONS=$TSAN_OPTIONS MON_MEM_GB=0 $BIN P29"
