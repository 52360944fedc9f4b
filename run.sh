#!/usr/bin/env bash
# run.sh <property id> [quick|thorough]
# Builds the harness of one property against /repo's working tree (offline, into /verif/target) and
# runs its monitored workload. Exit 0: held; 1: VIOLATION line; anything else: no verdict.
set -u
ID=${1:?property id}
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
HERE=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$HERE/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
EV="$HERE/evidence"
mkdir -p "$EV/replay"
rm -f "$EV/$ID.json" "$EV/replay/$ID-"*

case $ID in
  P01|P02|P03|P04|P05|P06|P07|P08|P09|P10|P11|P13|P14|P21|P22) CRATE=corechk ;;
  P15|P16|P17|P18|P19|P20) CRATE=algochk ;;
  P23|P24|P25|P26|P27) CRATE=iochk ;;
  P28|P30|P31|P32|P33) CRATE=laschk ;;
  P12) exec python3 "$HERE/tools/p12.py" "$TIER" ;;
  P34) exec python3 "$HERE/tools/p34.py" "$TIER" ;;
  P29) exec bash "$HERE/tools/p29.sh" "$TIER" ;;
  *) echo "no check for $ID"; exit 3 ;;
esac
BUDGET=150
[ "$TIER" = thorough ] && BUDGET=600
LOG="$EV/$ID.build.log"
if ! cargo +stable build --offline --locked --manifest-path "$HERE/$CRATE/Cargo.toml" --features "$ID" >"$LOG" 2>&1; then
  grep -E '^error|^ *-->' "$LOG" | head -20
  echo "the harness of $ID does not build against /repo (see $LOG)"
  exit 3
fi
if [ "$ID" = P33 ] && ! cargo +stable build --offline --locked --manifest-path "$HERE/infotool/Cargo.toml" >>"$LOG" 2>&1; then
  grep -E '^error|^ *-->' "$LOG" | head -20
  echo "the info tool does not build against /repo (see $LOG)"
  exit 3
fi
BIN="$HERE/target/debug/$CRATE-$ID"
cp -f "$HERE/target/debug/$CRATE" "$BIN"
exec "$BIN" "$ID" --tier "$TIER" --seed "$SEED" --budget "$BUDGET" --out "$EV/$ID.json" \
  --replay-dir "$EV/replay" --known "$HERE/known-findings.txt" --cmd "$BIN $ID"
