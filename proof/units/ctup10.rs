//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include vecs.inc
//@contracts on
//@include ready.inc
//@contracts off
//@include comb_types.inc
//@include cwakerarray.inc
//@include ctup_beh.inc
//@include ctup10.inc
fn main() {}
