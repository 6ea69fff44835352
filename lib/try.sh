#!/bin/bash
# Developer helper: run checks tersely; stop at the first check error.
cd "$(dirname "$0")/.." || exit 1
for p in "$@"; do
  out=$(python3 run_check.py "$p" $TRY_ARGS 2>&1); rc=$?
  printf '%s\n' "$out" | cut -c1-${TRY_W:-420} | head -${TRY_N:-10}
  [ $rc -gt 1 ] && exit $rc
done
exit 0
