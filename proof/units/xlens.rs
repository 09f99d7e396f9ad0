#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces)]
use vstd::prelude::*;
//@file st x-bow/src/store.rs
//@file pi x-bow/src/path_impl.rs
//@file ve x-bow/src/impls/stdlib/vec.rs
//@file hm x-bow/src/impls/stdlib/hash_map.rs
//@file rc x-bow/src/impls/stdlib/rc.rs
//@file tr x-bow/src/impls/transparent.rs
//@file bo x-bow/src/impls/stdlib/boxed.rs
//@file le x-bow/src/impls/leaf.rs
//@file hp x-bow-macros/src/helpers.rs
//@file gen x-bow-macros/src/generate.rs
//@file gu x-bow/src/guarantee.rs
//@include lens.inc
fn main() {}
