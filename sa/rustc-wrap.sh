#!/bin/bash
# rustc front for building the (old) dependency graph with the nightly compiler:
# reports a non-nightly version so that build scripts do not switch on removed
# nightly features, and lifts wasm-bindgen's version denylist (wasm-only crate).
R="${VP_RUSTC:?}"
for a in "$@"; do
  case "$a" in
    -vV|-V|--version|-Vv) "$R" "$@" | sed 's/-nightly//'; exit 0;;
    wasm_bindgen) export CARGO_PKG_VERSION=0.2.99 CARGO_PKG_VERSION_PATCH=99;;
  esac
done
exec "$R" "$@"
