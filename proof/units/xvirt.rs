//@include prelude.inc
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
//@file dl async_ui_web/src/lists/dynamic_list.rs
//@file vl async_ui_web/src/lists/virtualized_list.rs
//@contracts on
//@include rank.inc
//@include fits.inc
//@include ldoc.inc
//@include hmap.inc
//@include ldyn.inc
//@contracts off
//@include hset.inc
//@include half.inc
//@include made.inc
//@include virt.inc
fn main() {}
