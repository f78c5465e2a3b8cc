#!/bin/bash
# dump.sh NAME CARGO_FLAGS... : MIR of /repo's working tree -> /verif/target/NAME.json
set -e
V="$(cd "$(dirname "$0")" && pwd)"
R="${PQ_REPO:-/repo}"
name="$1"; shift
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
export CARGO_TARGET_DIR="$V/target/$name"
export RUSTC_WORKSPACE_WRAPPER="$V/driver/target/debug/pqmir"
export PQMIR_OUT="$V/target/$name.json" CARGO_INCREMENTAL=0
rm -f "$PQMIR_OUT"
# cargo's freshness cache would skip the wrapper: drop the fingerprint of the analysed crate
find "$CARGO_TARGET_DIR" -maxdepth 4 -path '*fingerprint/parquet2-*' -prune -exec rm -rf {} + 2>/dev/null || true
rm -rf "$CARGO_TARGET_DIR"/debug/build/parquet2 "$CARGO_TARGET_DIR"/debug/.fingerprint/parquet2-*
cd "$R"
cargo +nightly check --offline --lib "$@" 2>"$V/target/$name.log" || { tail -50 "$V/target/$name.log" >&2; exit 3; }
test -s "$PQMIR_OUT"
