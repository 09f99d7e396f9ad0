//! selx OUT: what the repository's own select! makes of each of a list of uses, one function per use.
//! The macro's source is compiled in (SELX_SRC names it); the uses differ in the number of branches and in how a branch is written.
#[allow(dead_code, unused)]
mod repo {
    extern crate proc_macro;
    include!(env!("SELX_SRC"));
    pub fn expand(t: TokenStream) -> TokenStream {
        syn::parse2::<MacroInput>(t).expect("the use does not parse").generate()
    }
}

fn main() {
    let mut out = String::new();
    for n in 1..=12usize {
        for form in ["comma", "last", "block", "mixed"] {
            let mut s = String::new();
            for k in 0..n {
                let block = match form { "block" => true, "mixed" => k % 2 == 0, _ => false };
                s += &format!("p = w.future({k}) => ");
                s += &if block { format!("{{ w.handle({k}, p) }}") } else { format!("w.handle({k}, p)") };
                // a handler in braces needs no comma; the last branch needs none either
                if !block && !(form == "last" && k == n - 1) { s += "," }
                s += "\n";
            }
            let t = repo::expand(s.parse().expect("tokens"));
            out += &format!("fn select_{n}_{form}() {{ {t} }}\n");
        }
    }
    std::fs::write(std::env::args().nth(1).unwrap(), out).unwrap();
}
