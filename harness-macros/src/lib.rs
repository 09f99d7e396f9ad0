//! The bounded check of `css!`: the real macro, called for one style sheet after another from within the
//! compiler (where alone a procedural macro can be called). `vx_harness!()` in a crate compiled with
//! VX_ARGS set (words separated by newlines) runs the harness's command and ends the process.
include!("/repo/async_ui_web_macros/src/lib.rs");

#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/drive.rs"]
mod drive;
mod props;

#[proc_macro]
pub fn vx_harness(_: proc_macro::TokenStream) -> proc_macro::TokenStream {
    core::IN_PLACE.store(true, std::sync::atomic::Ordering::Relaxed);
    let a = std::env::var("VX_ARGS").unwrap_or_default();
    drive::main(std::iter::once("harness".to_string()).chain(a.split('\n').map(|s| s.to_string())).collect());
    std::process::exit(0)
}
