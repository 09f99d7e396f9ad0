macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;
mod core;
mod drive;
mod props;
mod util;

fn main() {
    drive::main(std::env::args().collect());
}
