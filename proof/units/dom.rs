//@include prelude.inc
//@include waker.inc
//@contracts on
//@include pos.inc
//@contracts off
//@include domctx.inc
//@include domtypes.inc
//@include dom.inc
//@include dhist.inc
fn main() {}
