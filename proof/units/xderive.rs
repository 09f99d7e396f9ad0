#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_camel_case_types, non_snake_case)]
use vstd::prelude::*;
//@file dx gen:derive_expanded.rs
//@file du1 gen:derive_tuple_1.rs
//@file du2 gen:derive_tuple_2.rs
//@file du3 gen:derive_tuple_3.rs
//@file du4 gen:derive_tuple_4.rs
//@file du5 gen:derive_tuple_5.rs
//@file du6 gen:derive_tuple_6.rs
//@file du7 gen:derive_tuple_7.rs
//@file du8 gen:derive_tuple_8.rs
//@file du9 gen:derive_tuple_9.rs
//@file du10 gen:derive_tuple_10.rs
//@file du11 gen:derive_tuple_11.rs
//@file du12 gen:derive_tuple_12.rs
//@nodefault
//@default cell;; lens;; opt=map,and_then;; passto=path_borrow:root;; passto=path_borrow_mut:root
//@include lens_path.inc
verus! {
// ======== what a builder makes ========
struct Built<P> { path: P }
fn new_path_builder<P>(parent: P) -> (r: Built<P>)
    ensures r.path == parent,
{ Built { path: parent } }
} // verus!
//@include derive_lens.inc
fn main() {}
