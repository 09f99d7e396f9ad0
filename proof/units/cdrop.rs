//@include prelude.inc
//@include waker.inc
//@include dropping.inc
fn main() {}
