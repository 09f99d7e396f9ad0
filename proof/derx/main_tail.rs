// appended to the repository's x-bow-macros/src/lib.rs, whose #[proc_macro_derive] lines are taken out
#[path = "samples.rs"]
mod samples;
#[path = "mac.rs"]
mod mac;
/// derx DIR TUPLE_RS: what the repository's derive(Trackable) makes of the sample types and of the tuples of TUPLE_RS,
/// and the number each mapper writes to the hasher
fn main() {
    let mut a = std::env::args().skip(1);
    let dir = a.next().unwrap();
    let mut out = String::new();
    for (name, text) in samples::SAMPLES {
        let input: DeriveInput = syn::parse_str(text).expect(name);
        out += &derive(input).unwrap_or_else(|e| panic!("{name}: {e}")).to_string();
        out += "\n";
    }
    let mut all = String::from("verus! {\n");
    numbers(&out, "", &mut all);
    std::fs::write(format!("{dir}/derive_expanded.rs"), out).unwrap();
    let mut file = syn::parse_file(&std::fs::read_to_string(a.next().unwrap()).unwrap()).unwrap();
    mac::expand(&mut file.items);
    for item in file.items {
        let syn::Item::Mod(m) = item else { continue };
        for item in m.content.unwrap().1 {
            let syn::Item::Struct(mut s) = item else { continue };
            let n = s.fields.len();
            s.attrs.retain(|a| !a.path().is_ident("derive") && !a.path().is_ident("allow"));
            // where x-bow's own names are found is left out: there is no x-bow around the extracted functions
            for a in &mut s.attrs {
                if quote::quote!(#a).to_string().contains("module_prefix") {
                    *a = parse_quote!(#[x_bow(module_prefix = crate)]);
                }
            }
            let input: DeriveInput = parse_quote!(#s);
            let out = derive(input).unwrap_or_else(|e| panic!("{e}")).to_string();
            numbers(&out, &format!("{n}_"), &mut all);
            std::fs::write(format!("{dir}/derive_tuple_{n}.rs"), out).unwrap();
        }
    }
    all += "} // verus!\n";
    std::fs::write(format!("{dir}/derive_numbers.inc"), all).unwrap();
}
fn numbers(text: &str, prefix: &str, out: &mut String) {
    let file = syn::parse_file(text).expect("the expansion does not parse");
    for item in &file.items {
        let syn::Item::Impl(i) = item else { continue };
        let syn::Type::Path(t) = &*i.self_ty else { continue };
        let name = t.path.segments.last().unwrap().ident.to_string();
        for f in &i.items {
            let syn::ImplItem::Fn(f) = f else { continue };
            if f.sig.ident != "visit_hashes" {
                continue;
            }
            for s in &f.block.stmts {
                if let syn::Stmt::Expr(syn::Expr::Call(c), _) = s {
                    if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. })) = c.args.last() {
                        *out += &format!("spec fn number_{prefix}{name}() -> usize {{ {} }}\n", n.base10_digits());
                    }
                }
            }
        }
    }
}
