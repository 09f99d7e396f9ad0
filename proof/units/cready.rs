//@include prelude.inc
//@include waker.inc
//@include vecs.inc
//@include ready.inc
fn main() {}
