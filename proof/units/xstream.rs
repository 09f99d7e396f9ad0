//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include intmap.inc
//@include iters.inc
//@include arena_types.inc
//@default cell;; pin
//@include store_types.inc
//@contracts on
//@include arena_fns.inc
//@include store_fns.inc
//@include path_types.inc
//@include path_fns.inc
//@include paths.inc
//@contracts off
//@include stream_fns.inc
fn main() {}
