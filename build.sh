#!/bin/bash
# Builds the simulator, and the JavaScript clients it drives, from /repo's current working tree.
set -e
. /opt/vp/env.sh
cd "$(dirname "$0")"
here="$PWD"
out="${CARGO_TARGET_DIR_OVERRIDE:-$here/target}"
mkdir -p "$out"
rm -f "$out/driver.cjs"
(cd js && NODE_PATH="$here/js/lib" /opt/veriftools/node/node_modules/.bin/esbuild driver.mjs --bundle \
  --platform=node --format=cjs --outfile="$out/driver.cjs" --log-level=error --tsconfig-raw='{}') || true
cd sim
export RUSTFLAGS="--cfg nifty_dst"
export CARGO_TARGET_DIR="$out"
exec cargo build --release --offline --locked "$@"
