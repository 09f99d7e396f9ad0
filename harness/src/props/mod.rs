mod comb;
mod dom;
mod lists;
mod reactive;
mod store;
mod ui;
use crate::core::Case;

pub fn all() -> Vec<(&'static str, Case)> {
    vec![
        ("R01", reactive::r01 as Case),
        ("R02", reactive::r02),
        ("X01", store::x01),
        ("X02", store::x02),
        ("X03", store::x03),
        ("X04", store::x04),
        ("X05", store::x05),
        ("C01", comb::c01),
        ("C02", comb::c02),
        ("C03", comb::c03),
        ("C04", comb::c04),
        ("D01", dom::d01),
        ("D02", dom::d02),
        ("D03", dom::d03),
        ("L01", lists::l01),
        ("L02", lists::l02),
        ("L03", lists::l03),
        ("V01", lists::v01),
        ("U01", ui::u01),
        ("U02", ui::u02),
        ("U03", ui::u03),
    ]
}
pub fn find(p: &str) -> Option<Case> {
    all().into_iter().find(|x| x.0 == p).map(|x| x.1)
}
