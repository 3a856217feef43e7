#!/bin/bash
# check.sh <Cnn> <quick|thorough>: build the simulator from /repo's working tree, then search.
cd "$(dirname "$0")" || exit 2
log="$(mktemp)"
if ! ./build.sh >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "ERROR: the simulator does not build"; exit 2
fi
rm -f "$log"
exec ./target/release/nifty-dst check "$1" "${2:-${VERIF_TIER:-quick}}"
