#!/bin/bash
# rustc stand-in used to build /repo's (old) dependency tree with the pinned nightly:
#  - build scripts see a stable version string (ahash 0.7's build.rs otherwise turns on a feature
#    gate that no longer exists);
#  - the wasm-bindgen crate's patch version is hidden from rustc's "too old" hard error (wasm ABI
#    only; irrelevant on this host);
#  - the token-bonding-curve library itself is compiled by the MIR dumper when MIRDUMP_BIN is set.
case "$*" in
  *--version*|*-V*|*-vV*) "$REAL_RUSTC" "$@" | sed -E 's/-nightly//g'; exit ;;
esac
case "${CARGO_CRATE_NAME:-}" in
  wasm_bindgen) unset CARGO_PKG_VERSION_MAJOR CARGO_PKG_VERSION_MINOR CARGO_PKG_VERSION_PATCH ;;
  token_bonding_curve) if [ -n "${MIRDUMP_BIN:-}" ] && [ "${CARGO_PRIMARY_PACKAGE:-}" = 1 ]; then exec "$MIRDUMP_BIN" "$REAL_RUSTC" "$@"; fi ;;
esac
exec "$REAL_RUSTC" "$@"
