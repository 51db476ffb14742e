#!/bin/bash
# check.sh <property> : decide one property on /repo's current tree
set -uo pipefail
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
SRC="${VERIF_SRC:-/repo}"
OUT="$HERE/build/mir-$ID.json"
mkdir -p "$HERE/build" "$HERE/evidence"
(
  flock 9
  "$HERE/tools/dump.sh" "$OUT" "$SRC" "${VERIF_TD:-$HERE/build/target}"
) 9>"$HERE/build/lock" || { echo "$ID: the tree does not compile for analysis" >&2; exit 2; }
export VERIF_TIER="$TIER"
# code conditional on debug_assertions: both builds must keep the property
if ! grep -rqE 'debug_assert' --include='*.rs' "$SRC/src"; then
  cd "$HERE/analysis" && exec python3 runner.py "$ID" "$OUT" "$TIER"
fi
T0=$SECONDS
(cd "$HERE/analysis" && python3 runner.py "$ID" "$OUT" "$TIER"); RC=$?
[ $RC -eq 0 ] && [ $((SECONDS - T0)) -lt 400 ] || exit $RC
(
  flock 9
  DUMP_FLAGS=-Cdebug-assertions=off "$HERE/tools/dump.sh" "$OUT.rel" "$SRC" "${VERIF_TD:-$HERE/build/target}-rel"
) 9>"$HERE/build/lock" || exit $RC
cmp -s "$OUT" "$OUT.rel" && exit $RC
export VERIF_BUDGET=$((800 - SECONDS + T0))
cd "$HERE/analysis" && exec python3 runner.py "$ID" "$OUT.rel" "$TIER"
