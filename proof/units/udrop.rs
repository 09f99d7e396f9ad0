//@include prelude.inc
//@file dr async_ui_web/src/components/dropdown.rs
//@contracts on
//@include rank.inc
//@include hmap.inc
//@contracts off
//@include hset.inc
//@include half.inc
//@include drop.inc
fn main() {}
