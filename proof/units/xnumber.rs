//@file dx gen:derive_expanded.rs
//@file du1 gen:derive_tuple_1.rs
//@file du2 gen:derive_tuple_2.rs
//@file du3 gen:derive_tuple_3.rs
//@file du4 gen:derive_tuple_4.rs
//@file du5 gen:derive_tuple_5.rs
//@file du6 gen:derive_tuple_6.rs
//@file du7 gen:derive_tuple_7.rs
//@file du8 gen:derive_tuple_8.rs
//@file du9 gen:derive_tuple_9.rs
//@file du10 gen:derive_tuple_10.rs
//@file du11 gen:derive_tuple_11.rs
//@file du12 gen:derive_tuple_12.rs
//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include intmap.inc
//@include iters.inc
//@include arena_types.inc
//@default cell;; pin
//@include store_types.inc
//@contracts on
//@include arena_fns.inc
//@include store_fns.inc
//@include path_types.inc
//@include path_fns.inc
//@contracts off
//@default cell;; pin;; world=visit_hashes,finish_one;; via=write_u8,write_usize:deref_mut;; expr=&mut **visitor->visitor.deref_mut()
//@include paths_base.inc
//@include derive_hash.inc
fn main() {}
