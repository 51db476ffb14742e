#!/bin/bash
# hunt.sh [ID...]: apply each planted bug in a scratch copy, run its property's check (and ALL with A=1) there
HERE="$(cd "$(dirname "$0")/.." && pwd)"; W=/tmp/plant/hunt; mkdir -p /tmp/plant
[ -d $W ] || { git clone -q /repo $W; }
for d in ${@:-$(ls $HERE/seeded)}; do
  (cd $W && git checkout -q . && git fetch -q && git checkout -q origin/HEAD && cp /repo/Cargo.lock . && git apply $HERE/seeded/$d/patch.diff) || { echo "$d: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$HERE/seeded/$d/meta.json'))['property'])")
  ps=$p; [ -n "${A:-}" ] && ps=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$HERE/MANIFEST.json'))['checks']])")
  "$HERE/tools/dump.sh" /tmp/plant/mir.json $W /tmp/plant/hunt-target || { echo "$d: no compile"; continue; }
  for q in $ps; do
    out=$(cd $HERE/analysis && timeout 900 python3 runner.py $q /tmp/plant/mir.json 2>&1); rc=$?
    if [ $rc = 1 ] && echo "$out" | grep -q "^VIOLATION property=$q"; then echo "$d $q CAUGHT: $(echo "$out" | grep -v undecided | sed -n 2p | cut -c1-220)"
    elif [ $q = $p ] || [ $rc != 0 ]; then echo "$d $q MISSED rc=$rc: $(echo "$out" | head -4 | cut -c1-300)"; fi
  done
done
(cd $W && git checkout -q .)
