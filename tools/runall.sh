#!/bin/bash
# every check, one after the other: tools/runall.sh [TIER]
cd "$(dirname "$0")/.."
for f in contracts/c[0-9][0-9].py; do
  id=$(basename $f .py | tr c C)
  ./check $id --tier ${1:-quick} 2>&1 | tail -4 || true
done
