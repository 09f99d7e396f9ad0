macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;
#[path = "../../harness/src/core.rs"]
mod core;
#[path = "../../harness/src/drive.rs"]
mod drive;
mod props;
#[path = "../../harness/src/util.rs"]
mod util;

fn main() {
    drive::main(std::env::args().collect());
}
