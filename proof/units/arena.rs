//@include prelude.inc
//@include waker.inc
//@include arena_types.inc
//@include arena_fns.inc
fn main() {}
