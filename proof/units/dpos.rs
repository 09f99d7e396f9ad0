//@include prelude.inc
//@include pos.inc
fn main() {}
