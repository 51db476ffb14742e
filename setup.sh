#!/bin/bash
# builds the MIR driver and warms the dependency metadata
set -euo pipefail
HERE="$(cd "$(dirname "$0")" && pwd)"
"$HERE/tools/dump.sh" "$HERE/build/mir.json"
echo "mir: $(stat -c %s "$HERE/build/mir.json") bytes"
