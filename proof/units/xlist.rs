//@include prelude.inc
//@file dl async_ui_web/src/lists/dynamic_list.rs
//@include rank.inc
//@include fits.inc
//@include ldoc.inc
//@include hmap.inc
//@include ldyn.inc
fn main() {}
