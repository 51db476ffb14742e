#!/bin/bash
# Dump the resolved MIR of /repo's current tree to $1 (default /verif/build/mir.json).
set -euo pipefail
HERE="$(cd "$(dirname "$0")/.." && pwd)"
OUT="${1:-$HERE/build/mir.json}"
SRC="${2:-/repo}"
TD="${3:-$HERE/build/target}"
mkdir -p "$HERE/build"
SYS="$(rustc +nightly --print sysroot)"
export CARGO_NET_OFFLINE=true
DRV="$HERE/build/driver/release/mirdump"
if [ ! -x "$DRV" ]; then
  (cd "$HERE/tools/driver" && CARGO_TARGET_DIR="$HERE/build/driver" cargo +nightly build --offline --release >/dev/null 2>"$HERE/build/driver.log") || { tail -20 "$HERE/build/driver.log" >&2; exit 2; }
fi
mkdir -p "$TD" "$(dirname "$OUT")"
find "$TD" -maxdepth 4 -type d \( -path '*/.fingerprint/sparsetools-*' -o -path '*/debug/build/sparsetools' -o -path '*/debug/build/sparsetools-*' \) -prune -exec rm -rf {} + 2>/dev/null || true
rm -f "$OUT"
cd "$SRC"
export LD_LIBRARY_PATH="$SYS/lib${LD_LIBRARY_PATH:+:$LD_LIBRARY_PATH}"
export RUSTC_WORKSPACE_WRAPPER="$DRV" MIRDUMP_CRATE=sparsetools MIRDUMP_OUT="$OUT"
export RUSTFLAGS="-Zmir-opt-level=0 -Coverflow-checks=off -Zub-checks=no --cap-lints=allow ${DUMP_FLAGS:-}"
export CARGO_TARGET_DIR="$TD"
cargo +nightly check --offline --all-features --lib ${CARGO_LOCKED:-} 2>"$OUT.log" >/dev/null || { tail -30 "$OUT.log" >&2; exit 2; }
[ -s "$OUT" ] || { echo "no MIR written" >&2; exit 2; }
