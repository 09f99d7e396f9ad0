//@include prelude.inc
//@file ds async_ui_web/src/components/dynamic_slot.rs
//@include task.inc
//@include slot.inc
fn main() {}
