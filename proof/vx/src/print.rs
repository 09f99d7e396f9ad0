//! Prints tokens with line breaks; expands the loop and text markers.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

pub struct Texts {
    pub loops: BTreeMap<usize, (String, String)>, // (clauses before the brace, text at the start of the body)
    pub texts: Vec<String>,
}

fn marker(ts: &[TokenTree], name: &str) -> Option<usize> {
    if let [TokenTree::Ident(i), TokenTree::Punct(p), TokenTree::Group(g), ..] = ts {
        if i == name && p.as_char() == '!' {
            return g.stream().to_string().trim().parse().ok();
        }
    }
    None
}

pub fn print(ts: TokenStream, tx: &Texts) -> String {
    let mut o = String::new();
    go(ts, tx, &mut o, false);
    o
}

fn go(ts: TokenStream, tx: &Texts, o: &mut String, bracket: bool) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(k) = marker(&v[i..], "__vx_text") {
            o.push('\n');
            o.push_str(&tx.texts[k]);
            o.push('\n');
            i += 3;
            if let Some(TokenTree::Punct(p)) = v.get(i) {
                if p.as_char() == ';' {
                    i += 1;
                }
            }
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => match g.delimiter() {
                Delimiter::Brace => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    if let Some(k) = marker(&inner, "__vx_loop") {
                        let (cl, st) = tx.loops.get(&k).cloned().unwrap_or_default();
                        o.push('\n');
                        o.push_str(&cl);
                        o.push_str("{\n");
                        o.push_str(&st);
                        let skip = if matches!(inner.get(3), Some(TokenTree::Punct(p)) if p.as_char() == ';') { 4 } else { 3 };
                        go(inner[skip..].iter().cloned().collect(), tx, o, false);
                    } else {
                        o.push_str("{\n");
                        go(g.stream(), tx, o, false);
                    }
                    o.push_str("\n}\n");
                }
                Delimiter::Parenthesis => {
                    o.push('(');
                    go(g.stream(), tx, o, true);
                    o.push_str(") ");
                }
                Delimiter::Bracket => {
                    o.push('[');
                    go(g.stream(), tx, o, true);
                    o.push_str("] ");
                }
                Delimiter::None => go(g.stream(), tx, o, bracket),
            },
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' && !bracket {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            TokenTree::Ident(x) => {
                o.push_str(&x.to_string());
                o.push(' ');
            }
            TokenTree::Literal(l) => {
                o.push_str(&l.to_string());
                o.push(' ');
            }
        }
        i += 1;
    }
}
