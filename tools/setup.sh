#!/bin/sh
# build every bounded-check driver once, so that the checks only rebuild what changed
cd "$(dirname "$0")/.." || exit 1
mkdir -p .build/work evidence replays
export RUSTUP_TOOLCHAIN=1.92.0 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER= CARGO_TARGET_DIR="$PWD/.build/target"
for d in drivers/*/Cargo.toml; do
  (cd "$(dirname "$d")" && cargo build --offline --quiet) || echo "driver $d does not build"
done
verus --version >/dev/null || exit 1
exit 0
