//! Expansion of `macro_rules!` macros used at item level in the file that defines them.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::HashMap;

#[derive(Clone, Debug)]
enum M {
    Tok(TokenStream),
    Rep(Vec<HashMap<String, M>>),
}

fn is_p(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}

/// pattern PAT against the tokens from position *k on
fn matches(pat: &[TokenTree], src: &[TokenTree], k: &mut usize, b: &mut HashMap<String, M>) -> bool {
    let mut i = 0;
    while i < pat.len() {
        if is_p(&pat[i], '$') {
            if let Some(TokenTree::Group(g)) = pat.get(i + 1) {
                if g.delimiter() == Delimiter::Parenthesis {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, op, next) = rep_tail(pat, i + 2);
                    let mut reps = vec![];
                    loop {
                        let mut kk = *k;
                        if !reps.is_empty() {
                            if let Some(s) = &sep {
                                if src.get(kk).map(|t| t.to_string()) != Some(s.to_string()) {
                                    break;
                                }
                                kk += 1;
                            }
                        }
                        if kk >= src.len() {
                            break;
                        }
                        let mut bb = HashMap::new();
                        if !matches(&inner, src, &mut kk, &mut bb) {
                            break;
                        }
                        *k = kk;
                        reps.push(bb);
                    }
                    if op == '+' && reps.is_empty() {
                        return false;
                    }
                    let mut names = vec![];
                    collect(&inner, &mut names);
                    for n in names {
                        b.insert(n.clone(), M::Rep(reps.iter().map(|r| HashMap::from([(n.clone(), r[&n].clone())])).collect()));
                    }
                    i = next;
                    continue;
                }
            }
            if let (Some(TokenTree::Ident(n)), Some(c), Some(TokenTree::Ident(f))) = (pat.get(i + 1), pat.get(i + 2), pat.get(i + 3)) {
                if is_p(c, ':') {
                    let Some(t) = src.get(*k) else { return false };
                    match f.to_string().as_str() {
                        "ident" if !matches!(t, TokenTree::Ident(_)) => return false,
                        "literal" if !matches!(t, TokenTree::Literal(_)) => return false,
                        "ident" | "tt" | "literal" => {}
                        _ => return false,
                    }
                    b.insert(n.to_string(), M::Tok(TokenStream::from(t.clone())));
                    *k += 1;
                    i += 4;
                    continue;
                }
            }
        }
        let Some(t) = src.get(*k) else { return false };
        match (&pat[i], t) {
            (TokenTree::Group(p), TokenTree::Group(s)) if p.delimiter() == s.delimiter() => {
                let (p, s): (Vec<_>, Vec<_>) = (p.stream().into_iter().collect(), s.stream().into_iter().collect());
                let mut kk = 0;
                if !matches(&p, &s, &mut kk, b) || kk != s.len() {
                    return false;
                }
            }
            (p, s) if p.to_string() == s.to_string() => {}
            _ => return false,
        }
        *k += 1;
        i += 1;
    }
    true
}

fn collect(pat: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in pat.iter().enumerate() {
        if is_p(t, '$') {
            if let (Some(TokenTree::Ident(n)), Some(c)) = (pat.get(i + 1), pat.get(i + 2)) {
                if is_p(c, ':') {
                    out.push(n.to_string());
                }
            }
        }
        if let TokenTree::Group(g) = t {
            collect(&g.stream().into_iter().collect::<Vec<_>>(), out);
        }
    }
}

fn rep_tail(p: &[TokenTree], i: usize) -> (Option<TokenTree>, char, usize) {
    if let Some(TokenTree::Punct(c)) = p.get(i) {
        if ['*', '+', '?'].contains(&c.as_char()) {
            return (None, c.as_char(), i + 1);
        }
    }
    if let Some(TokenTree::Punct(c)) = p.get(i + 1) {
        if ['*', '+'].contains(&c.as_char()) {
            return (p.get(i).cloned(), c.as_char(), i + 2);
        }
    }
    (None, '*', i)
}

fn used(body: &[TokenTree], out: &mut Vec<String>) {
    for (i, t) in body.iter().enumerate() {
        if is_p(t, '$') {
            if let Some(TokenTree::Ident(n)) = body.get(i + 1) {
                out.push(n.to_string());
            }
        }
        if let TokenTree::Group(g) = t {
            used(&g.stream().into_iter().collect::<Vec<_>>(), out);
        }
    }
}

fn subst(body: &[TokenTree], b: &HashMap<String, M>) -> Option<TokenStream> {
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < body.len() {
        if is_p(&body[i], '$') {
            match body.get(i + 1) {
                Some(TokenTree::Ident(n)) => {
                    if let Some(M::Tok(t)) = b.get(&n.to_string()) {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let (sep, _, next) = rep_tail(body, i + 2);
                    let mut names = vec![];
                    used(&inner, &mut names);
                    let n = names.iter().find_map(|n| match b.get(n) {
                        Some(M::Rep(r)) => Some(r.len()),
                        _ => None,
                    })?;
                    for k in 0..n {
                        let mut bb = b.clone();
                        for m in &names {
                            if let Some(M::Rep(r)) = b.get(m) {
                                bb.extend(r.get(k)?.clone());
                            }
                        }
                        if k > 0 {
                            if let Some(s) = &sep {
                                out.extend([s.clone()]);
                            }
                        }
                        out.extend(subst(&inner, &bb)?);
                    }
                    i = next;
                    continue;
                }
                _ => {}
            }
        }
        match &body[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), subst(&g.stream().into_iter().collect::<Vec<_>>(), b)?);
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    Some(out)
}

/// rules `(pattern) => { body };`
fn rules(ts: TokenStream) -> Vec<(Vec<TokenTree>, Vec<TokenTree>)> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i + 3 < v.len() {
        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&v[i], &v[i + 3]) {
            out.push((p.stream().into_iter().collect(), b.stream().into_iter().collect()));
        }
        i += 4;
        while i < v.len() && is_p(&v[i], ';') {
            i += 1;
        }
    }
    out
}

pub fn expand(items: &mut Vec<syn::Item>) {
    let mut defs: HashMap<String, Vec<(Vec<TokenTree>, Vec<TokenTree>)>> = HashMap::new();
    for i in items.iter() {
        if let syn::Item::Macro(m) = i {
            if let Some(n) = &m.ident {
                defs.insert(n.to_string(), rules(m.mac.tokens.clone()));
            }
        }
    }
    let mut out = vec![];
    for i in std::mem::take(items) {
        if let syn::Item::Macro(m) = &i {
            if m.ident.is_none() {
                if let Some(rs) = m.mac.path.get_ident().and_then(|n| defs.get(&n.to_string())) {
                    let src: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                    let done = rs.iter().find_map(|(p, body)| {
                        let mut b = HashMap::new();
                        let mut k = 0;
                        if !matches(p, &src, &mut k, &mut b) || k != src.len() {
                            return None;
                        }
                        let mut f = syn::parse2::<syn::File>(subst(body, &b)?).ok()?;
                        expand(&mut f.items);
                        Some(f.items)
                    });
                    if let Some(d) = done {
                        out.extend(d);
                        continue;
                    }
                }
            }
        }
        out.push(i);
    }
    *items = out;
}
