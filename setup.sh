#!/bin/bash
# Builds the machinery once; every check rebuilds what changed.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
(cd symgeo && cargo build --release --offline) &&
(cd kern && RUSTFLAGS="--emit=llvm-ir -C no-prepopulate-passes" cargo build --offline) &&
(cd symir && cargo build --release --offline) &&
python3 kset/vendor.py
