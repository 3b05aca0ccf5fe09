#!/bin/bash
# build the native replay driver against /repo's current tree; prints the binary's path
set -e
E=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$E"); B=${VERIF_BUILD:-$V/.build}
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC
mkdir -p $B/replaysrc/src
cp $V/replay/Cargo.toml $B/replaysrc/; cp $V/replay/src/main.rs $B/replaysrc/src/; cp $V/replay/Cargo.lock $B/replaysrc/
CARGO_TARGET_DIR=$B/replay cargo build -q --release --offline --manifest-path $B/replaysrc/Cargo.toml "$@" 1>&2
echo $B/replay/release/replay
