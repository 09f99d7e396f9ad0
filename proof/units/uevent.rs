//@include prelude.inc
//@file ev async_ui_web_html/src/event_handling.rs
//@include task.inc
//@include uevent.inc
fn main() {}
