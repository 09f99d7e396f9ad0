// made by tools/mkderive.py
pub const SAMPLES: &[(&str, &str)] = &[
    ("N1", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct N1 { a: u64 }"),
    ("N3", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct N3 { a: u64, #[track(shallow)] b: u64, c: u64 }"),
    ("N5", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct N5 { #[track(skip)] a: u64, b: u64, #[track(skip)] c: u64, #[track(shallow)] d: u64, #[track(skip)] e: u64 }"),
    ("T3", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct T3 (u64, #[track(shallow)] u64, u64);"),
    ("T5", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct T5 (#[track(skip)] u64, u64, #[track(skip)] u64, #[track(shallow)] u64, u64);"),
    ("T12", r"#[x_bow(module_prefix = crate)] #[track(deep)] struct T12 (u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);"),
    ("E4", r"#[x_bow(module_prefix = crate)] #[track(deep)] enum E4 { A, B(u64, #[track(shallow)] u64, u64), C{ x: u64, #[track(shallow)] y: u64 }, F(u64) }"),
    ("E3", r"#[x_bow(module_prefix = crate)] #[track(deep)] enum E3 { B(#[track(skip)] u64, u64, #[track(skip)] u64, #[track(shallow)] u64), C{ #[track(skip)] x: u64, y: u64, #[track(skip)] z: u64, u: u64 }, F(u64, u64) }"),
    ("E1", r"#[x_bow(module_prefix = crate)] #[track(deep)] enum E1 { B(u64, u64) }"),
];
