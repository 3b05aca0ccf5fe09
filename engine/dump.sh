#!/bin/bash
# dump.sh OUT.jsonl [extra cargo args]: dump MIR of /repo's current tree.
set -e
E=$(cd "$(dirname "$0")" && pwd); V=$(dirname "$E"); B=${VERIF_BUILD:-$V/.build}
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true RUSTC_WRAPPER= RUSTC_WORKSPACE_WRAPPER= CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export REAL_RUSTC=$(rustup which rustc --toolchain nightly)
CARGO_TARGET_DIR=$B/mirdump cargo build -q --offline --manifest-path $E/mirdump/Cargo.toml
SYS=$("$REAL_RUSTC" --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib:$LD_LIBRARY_PATH
export MIRDUMP_BIN=$B/mirdump/debug/mirdump MIRDUMP_OUT=$1 MIRDUMP_STOP=$E/stop.txt
shift
export CARGO_TARGET_DIR=$B/dump RUSTC=$E/rustc-stable-shim.sh
export RUSTFLAGS="-Zalways-encode-mir -Awarnings -Coverflow-checks=on -Cdebug-assertions=off"
rm -f "$MIRDUMP_OUT"
# always re-run the crate itself
find $B/dump -name 'token-bonding-curve*' -prune -exec rm -rf {} + 2>/dev/null || true
cd /repo/programs/token-bonding-curve
cargo check -q --offline --locked -p token-bonding-curve --lib "$@"
test -s "$MIRDUMP_OUT"
