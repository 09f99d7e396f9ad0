#!/bin/bash
# Compiles main.rs (beside this file) with the macros of the current directory, over a stand-in for async_ui_web's
# hidden re-export of wasm_bindgen that defines the scripts registered as SCRIPT0, SCRIPT1, ..; exit 0 iff it behaves.
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
W=$(mktemp -d) || exit 3
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/ui/src" "$W/wb/src" "$W/wbm/src"; cp "$D/main.rs" "$W/src/main.rs"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
members = ["ui", "wb", "wbm"]
[dependencies]
async_ui_web = { path = "ui" }
T
cat > "$W/ui/Cargo.toml" <<T
[package]
name = "async_ui_web"
version = "0.1.0"
edition = "2021"
[dependencies]
async_ui_web_macros = { path = "$R/async_ui_web_macros" }
wasm_bindgen = { path = "../wb" }
T
echo 'pub use async_ui_web_macros::css; pub mod __private_macro_only { pub use wasm_bindgen; }' > "$W/ui/src/lib.rs"
cat > "$W/wb/Cargo.toml" <<T
[package]
name = "wasm_bindgen"
version = "0.2.100"
edition = "2021"
[dependencies]
wbm = { path = "../wbm" }
T
echo 'pub struct JsValue; pub static THE: JsValue = JsValue; pub mod prelude { pub use wbm::wasm_bindgen; }' > "$W/wb/src/lib.rs"
cat > "$W/wbm/Cargo.toml" <<T
[package]
name = "wbm"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
T
cat > "$W/wbm/src/lib.rs" <<'T'
use proc_macro::*;
static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
#[proc_macro_attribute]
pub fn wasm_bindgen(attr: TokenStream, item: TokenStream) -> TokenStream {
    if !attr.to_string().contains("inline_js") {
        return item;
    }
    let lit = attr.into_iter().last().unwrap().to_string();
    let block = item.into_iter().last().unwrap();
    let TokenTree::Group(g) = block else { panic!() };
    let name = g.stream().into_iter().nth(1).unwrap().to_string();
    format!("pub static {name}: &wasm_bindgen::JsValue = &wasm_bindgen::THE; #[no_mangle] pub static SCRIPT{}: &str = {lit};", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)).parse().unwrap()
}
T
cd "$W" || exit 3
export RUSTUP_TOOLCHAIN=1.99.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/t"
unset CARGO_BUILD_TARGET RUSTFLAGS
cp "$R/Cargo.lock" . 2>/dev/null
cargo build -q --offline || exit 4
timeout 60 "$W/t/debug/demo"
