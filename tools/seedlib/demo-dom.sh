#!/bin/bash
# Runs main.rs (beside this file) against the crates of the current directory over the in-memory DOM in fakedom/;
# exit 0 iff it behaves.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src"; cp "$D/main.rs" "$W/src/main.rs"; cp -r "$D/fakedom" "$W/fakedom"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
async_ui_internal_utils = { path = "$R/async_ui_internal_utils" }
async_ui_web_core = { path = "$R/async_ui_web_core" }
async_ui_web_html = { path = "$R/async_ui_web_html" }
async_ui_web = { path = "$R/async_ui_web" }
x-bow = { path = "$R/x-bow" }
futures-core = "0.3.28"
futures-lite = "1.13.0"
web-sys = { version = "0.3.64", features = ["Node", "Window", "Document", "HtmlSelectElement", "AddEventListenerOptions", "Comment","DocumentFragment","HtmlOptionElement"] }
wasm-bindgen = "0.2.87"
js-sys = "0.3.64"
[patch.crates-io]
web-sys = { path = "fakedom/web-sys" }
js-sys = { path = "fakedom/js-sys" }
wasm-bindgen = { path = "fakedom/wasm-bindgen" }
T
[ -f "$D/demo.lock" ] && cp "$D/demo.lock" "$W/Cargo.lock"
cd "$W" || exit 3
export RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t"
unset CARGO_BUILD_TARGET RUSTFLAGS
cargo build -q --offline || exit 4
timeout 60 "$W/t/debug/demo"
