#!/bin/bash
# check.sh PROPERTY [JOB]: rebuild the machinery against /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=1.83.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS
tier=${VERIF_TIER:-quick}
[ "$tier" = thorough ] || tier=quick
log=$(mktemp)
build() { "$@" >>"$log" 2>&1 || { tail -40 "$log"; rm -f "$log"; echo "ERROR the machinery does not build against the current tree"; exit 2; }; }
case "$1" in
  A08)
    build python3 kset/vendor.py
    rm -f "$log"
    exec python3 kset/run.py "$tier" "$PWD" $2 ;;
  K*)
    # the IR of the kernels: from scratch for rgeometry and the entry points, so that no older IR is read
    rm -f kern/target/debug/deps/rgeometry-*.ll kern/target/debug/deps/kern-*.ll
    touch kern/src/lib.rs
    (cd kern && cargo clean --offline -p rgeometry -p kern) >>"$log" 2>&1
    build env RUSTFLAGS="--emit=llvm-ir -C no-prepopulate-passes" bash -c 'cd kern && cargo build --offline'
    build bash -c 'cd symir && cargo build --release --offline'
    rm -f "$log"
    exec symir/target/release/symir run "$1" "$tier" "$PWD" $2 ;;
  *)
    build bash -c 'cd symgeo && cargo build --release --offline'
    rm -f "$log"
    exec symgeo/target/release/symgeo run "$1" "$tier" "$PWD" $2 ;;
esac
