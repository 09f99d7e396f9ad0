#!/bin/bash
# Runs main.rs (beside this file) against the crates of the current directory; exit 0 iff it behaves.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async_ui_internal_utils = { path = "$R/async_ui_internal_utils" }
x-bow = { path = "$R/x-bow" }
futures-core = "0.3"
futures-lite = "1.13"
T
[ -f "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$W/Cargo.lock"
cd "$W" || exit 3
export RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t"
unset CARGO_BUILD_TARGET RUSTFLAGS
cargo build -q --offline || exit 4
timeout 60 "$W/t/debug/demo"
