//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include intmap.inc
//@include iters.inc
//@include arena_types.inc
//@contracts on
//@include arena_fns.inc
//@contracts off
//@default cell;; pin
//@include store_types.inc
//@include store_fns.inc
fn main() {}
