//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include vecs.inc
//@contracts on
//@include ready.inc
//@contracts off
//@include comb_types.inc
//@include cwakerarray.inc
//@include ctup_beh.inc
//@include ctup12.inc
fn main() {}
