//@include prelude.inc
//@file dl async_ui_web/src/lists/dynamic_list.rs
//@file ml async_ui_web/src/lists/modeled_list.rs
//@contracts on
//@include rank.inc
//@include fits.inc
//@include ldoc.inc
//@include hmap.inc
//@include ldyn.inc
//@contracts off
//@include hset.inc
//@include model.inc
fn main() {}
