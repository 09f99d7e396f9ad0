//! vx TEMPLATE OUT.rs OUT.json : extracts functions from /repo's sources into a Verus file.
//!
//! The template is Verus text in which `//@struct`, `//@enum`, `//@const` and `//@fn` blocks are replaced by the item of
//! that name as /repo has it now, put through the lowerings of `lower.rs` (each one recorded in OUT.json), with the
//! contract of the block between signature and body. Nothing else of the function's text is touched.
mod guard;
mod lower;
mod mac;
mod print;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Default, Clone, Debug)]
pub struct Block {
    pub kind: String,
    pub label: String,
    pub path: String,
    pub spec: String,
    pub begin: String,
    pub end: String,
    pub loops: BTreeMap<usize, String>,
    pub loopstart: BTreeMap<usize, String>,
    pub loopend: BTreeMap<usize, String>,
    pub loopbefore: BTreeMap<usize, String>,
    pub returns: BTreeMap<usize, String>,
    pub after: Vec<(String, String)>,
    pub before: Vec<(String, String)>,
    pub opts: Vec<(String, String)>,
}
impl Block {
    pub fn opt(&self, k: &str) -> Option<&str> {
        self.opts.iter().rev().find(|o| o.0 == k).map(|o| o.1.as_str())
    }
    pub fn all<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a str> + 'a {
        self.opts.iter().filter(move |o| o.0 == k).map(|o| o.1.as_str())
    }
}

fn die(msg: String) -> ! {
    eprintln!("vx: {msg}");
    std::process::exit(3)
}

fn last_seg(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        syn::Type::Reference(r) => last_seg(&r.elem),
        syn::Type::Paren(r) => last_seg(&r.elem),
        syn::Type::Group(r) => last_seg(&r.elem),
        syn::Type::Tuple(_) => "Tuple".into(),
        syn::Type::Array(_) => "Array".into(),
        _ => "?".into(),
    }
}

/// among several items of one name (made by one macro), the one whose text contains this
pub fn picked(ts: proc_macro2::TokenStream, p: &str) -> bool {
    ts.to_string().split_whitespace().collect::<String>().contains(&p.split_whitespace().collect::<String>())
}

fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().replace(' ', "").contains("cfg(test)"))
}

fn find_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    for i in items {
        match i {
            syn::Item::Mod(m) => {
                if !is_test(&m.attrs) {
                    if let Some((_, c)) = &m.content {
                        find_items(c, out)
                    }
                }
            }
            i => out.push(i),
        }
    }
}

/// nested functions of a body (such as the vtable functions in shared_arc.rs)
fn nested<'a>(b: &'a syn::Block, name: &str) -> Option<&'a syn::ItemFn> {
    b.stmts.iter().find_map(|s| match s {
        syn::Stmt::Item(syn::Item::Fn(f)) if f.sig.ident == name => Some(f),
        _ => None,
    })
}

/// path forms: `f`, `Type::f`, `Type::Trait::f`, `f/nested`
fn find_fn(items: &[&syn::Item], path: &str, pick: Option<&str>) -> Option<(syn::Signature, syn::Block)> {
    let (main, nest) = match path.split_once('/') {
        Some((a, b)) => (a, Some(b)),
        None => (path, None),
    };
    let segs: Vec<&str> = main.split("::").collect();
    let mut found: Vec<(syn::Signature, syn::Block)> = vec![];
    for it in items {
        match it {
            syn::Item::Fn(f) if segs.len() == 1 && f.sig.ident == segs[0] => {
                if !is_test(&f.attrs) && !f.attrs.iter().any(|a| a.to_token_stream().to_string().replace(' ', "").contains("not(debug_assertions)")) {
                    found.push((f.sig.clone(), (*f.block).clone()))
                }
            }
            syn::Item::Impl(im) if segs.len() >= 2 && last_seg(&im.self_ty) == segs[0] => {
                let tr = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if segs.len() == 3 && tr.as_deref() != Some(segs[1]) {
                    continue;
                }
                if segs.len() == 2 && tr.is_some() {
                    continue;
                }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(f) = ii {
                        if f.sig.ident == segs[segs.len() - 1] && !is_test(&f.attrs) {
                            found.push((f.sig.clone(), f.block.clone()))
                        }
                    }
                }
            }
            syn::Item::Trait(t) if segs.len() == 2 && t.ident == segs[0] => {
                for ii in &t.items {
                    if let syn::TraitItem::Fn(f) = ii {
                        if f.sig.ident == segs[1] {
                            if let Some(b) = &f.default {
                                found.push((f.sig.clone(), b.clone()))
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if let Some(p) = pick {
        found.retain(|f| picked(f.1.to_token_stream(), p));
    }
    if found.len() > 1 {
        die(format!("{path}: {} candidates", found.len()))
    }
    let f = found.pop()?;
    match nest {
        None => Some(f),
        Some(n) => nested(&f.1, n).map(|x| (x.sig.clone(), (*x.block).clone())),
    }
}

/// `quote::f` : the function f as a procedural macro's quotation emits it, `#x` replaced as the block's interp options say
fn find_quoted(file: &syn::File, name: &str, b: &Block) -> Option<(syn::Signature, syn::Block)> {
    use proc_macro2::{TokenStream, TokenTree};
    fn quotes(ts: TokenStream, out: &mut Vec<TokenStream>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            if let TokenTree::Group(g) = t {
                if k >= 2 && matches!(&v[k - 1], TokenTree::Punct(p) if p.as_char() == '!') && matches!(&v[k - 2], TokenTree::Ident(i) if i == "quote") {
                    out.push(g.stream());
                }
                quotes(g.stream(), out);
            }
        }
    }
    fn interp(ts: TokenStream, b: &Block, qs: &[TokenStream]) -> TokenStream {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut out = TokenStream::new();
        let mut k = 0;
        while k < v.len() {
            // #( .. ) sep * : as often as the option reps says
            if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&v[k], v.get(k + 1)) {
                if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis {
                    let star = (k + 2..k + 4).find(|j| matches!(v.get(*j), Some(TokenTree::Punct(p)) if p.as_char() == '*'));
                    if let (Some(s), Some(n)) = (star, b.opt("reps").and_then(|n| n.parse::<usize>().ok())) {
                        for _ in 0..n {
                            out.extend(interp(g.stream(), b, qs));
                            out.extend(v[k + 2..s].iter().cloned());
                        }
                        k = s + 1;
                        continue;
                    }
                }
            }
            if let (TokenTree::Punct(p), Some(TokenTree::Ident(i))) = (&v[k], v.get(k + 1)) {
                if p.as_char() == '#' {
                    let r = b.all("interp").find_map(|o| o.split_once("->").filter(|x| i == x.0.trim()).map(|x| x.1.trim().to_string()));
                    // another quotation, the one that contains this text
                    if let Some(q) = r.as_ref().and_then(|r| r.strip_prefix("quote:")) {
                        let c: Vec<_> = qs.iter().filter(|x| picked((*x).clone(), q)).collect();
                        // the innermost one
                        let c: Vec<_> = c.iter().filter(|x| !c.iter().any(|y| y.to_string().len() < x.to_string().len())).collect();
                        if c.len() != 1 {
                            die(format!("lost anchor: {} quotations contain {q}", c.len()))
                        }
                        out.extend(interp((**c[0]).clone(), b, qs));
                        k += 2;
                        continue;
                    }
                    if let Some(r) = r {
                        out.extend(r.parse::<TokenStream>().unwrap());
                        k += 2;
                        continue;
                    }
                }
            }
            match &v[k] {
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), interp(g.stream(), b, qs));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
                t => out.extend([t.clone()]),
            }
            k += 1;
        }
        out
    }
    let mut qs = vec![];
    quotes(file.to_token_stream(), &mut qs);
    let mut found = vec![];
    fn search(ts: TokenStream, name: &str, found: &mut Vec<TokenStream>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for k in 0..v.len() {
            if let TokenTree::Ident(i) = &v[k] {
                let hash = name.strip_prefix('#');
                let at = if hash.is_some() && matches!(v.get(k + 1), Some(TokenTree::Punct(p)) if p.as_char() == '#') { k + 2 } else { k + 1 };
                if i == "fn" && (at == k + 2) == hash.is_some() && matches!(v.get(at), Some(TokenTree::Ident(n)) if n == hash.unwrap_or(name)) {
                    if let Some(e) = (k..v.len()).find(|j| matches!(&v[*j], TokenTree::Group(g) if g.delimiter() == proc_macro2::Delimiter::Brace)) {
                        found.push(v[k..=e].iter().cloned().collect());
                    }
                }
            }
            if let TokenTree::Group(g) = &v[k] {
                search(g.stream(), name, found);
            }
        }
    }
    for q in qs.clone() {
        search(q, name, &mut found);
    }
    let mut parsed: Vec<syn::ImplItemFn> = vec![];
    for f in found {
        if let Ok(x) = syn::parse2::<syn::ImplItemFn>(interp(f, b, &qs)) {
            if !parsed.iter().any(|p| p == &x) {
                parsed.push(x);
            }
        }
    }
    if let Some(p) = b.opt("pick") {
        parsed.retain(|f| picked(f.to_token_stream(), p));
    }
    if parsed.len() > 1 {
        die(format!("quote::{name}: {} candidates", parsed.len()))
    }
    parsed.pop().map(|f| (f.sig, f.block))
}

fn parse_blocks(text: &str) -> Vec<Result<Block, String>> {
    // Ok(block) or Err(plain text)
    let mut out = vec![];
    let mut plain = String::new();
    let mut cur: Option<(Block, String)> = None;
    let mut defaults: Vec<(String, String)> = vec![];
    let mut contracts = false;
    let add_opts = |b: &mut Vec<(String, String)>, rest: &str| {
        for o in rest.split(";;") {
            let o = o.trim();
            if o.is_empty() {
                continue;
            }
            let (k, v) = o.split_once('=').unwrap_or((o, ""));
            b.push((k.trim().into(), v.trim().into()));
        }
    };
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let (word, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match word {
                "default" => add_opts(&mut defaults, rest),
                "nodefault" => defaults.clear(),
                "contracts" => contracts = rest == "on",
                "fn" | "struct" | "enum" | "const" | "glue" => {
                    if cur.is_some() {
                        die(format!("block not closed before {line}"))
                    }
                    out.push(Err(std::mem::take(&mut plain)));
                    let (label, path) = rest.split_once(' ').unwrap_or_else(|| die(format!("bad header {line}")));
                    let mut opts = defaults.clone();
                    if contracts {
                        opts.push(("contract".into(), "".into()));
                    }
                    cur = Some((Block { kind: word.into(), label: label.into(), path: path.trim().into(), opts, ..Default::default() }, "none".into()));
                }
                "end@" | "endfn" => {
                    let (b, _) = cur.take().unwrap_or_else(|| die("stray end".into()));
                    out.push(Ok(b));
                }
                "opt" => add_opts(&mut cur.as_mut().unwrap().0.opts, rest),
                "spec" | "begin" | "end" => cur.as_mut().unwrap().1 = word.into(),
                "loop" | "loopstart" | "loopend" | "loopbefore" | "return" => cur.as_mut().unwrap().1 = format!("{word} {rest}"),
                "after" | "before" => {
                    let c = cur.as_mut().unwrap();
                    if word == "after" {
                        c.0.after.push((rest.into(), String::new()));
                    } else {
                        c.0.before.push((rest.into(), String::new()));
                    }
                    c.1 = word.into();
                }
                _ => die(format!("unknown directive {line}")),
            }
            continue;
        }
        match &mut cur {
            None => {
                plain.push_str(line);
                plain.push('\n');
            }
            Some((b, sec)) => {
                let (s, n) = sec.split_once(' ').map(|(a, b)| (a, b.trim().parse::<usize>().unwrap_or(0))).unwrap_or((sec, 0));
                let tgt = match s {
                    "spec" => &mut b.spec,
                    "begin" => &mut b.begin,
                    "end" => &mut b.end,
                    "loop" => b.loops.entry(n).or_default(),
                    "loopstart" => b.loopstart.entry(n).or_default(),
                    "loopend" => b.loopend.entry(n).or_default(),
                    "loopbefore" => b.loopbefore.entry(n).or_default(),
                    "return" => b.returns.entry(n).or_default(),
                    "after" => &mut b.after.last_mut().unwrap().1,
                    "before" => &mut b.before.last_mut().unwrap().1,
                    _ => {
                        if line.trim().is_empty() {
                            continue;
                        }
                        die(format!("text outside a section: {line}"))
                    }
                };
                tgt.push_str(line);
                tgt.push('\n');
            }
        }
    }
    if cur.is_some() {
        die("unclosed block".into())
    }
    out.push(Err(plain));
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let probe = std::env::var("VX_PROBE").is_ok();
    let root = std::env::var("VX_REPO").unwrap_or("/repo".into());
    let tpl_path = std::path::Path::new(&a[1]);
    let mut text = std::fs::read_to_string(tpl_path).unwrap_or_else(|e| die(format!("{}: {e}", a[1])));
    // includes (recursively) and file labels
    let mut files: BTreeMap<String, (String, syn::File)> = BTreeMap::new();
    loop {
        let mut out = String::new();
        let mut again = false;
        for l in text.lines() {
            if let Some(f) = l.trim().strip_prefix("//@include ") {
                let p = match f.trim().strip_prefix("gen:") {
                    Some(g) => std::path::Path::new(&std::env::var("VX_GEN").unwrap_or_default()).join(g),
                    None => tpl_path.parent().unwrap().join(f.trim()),
                };
                out.push_str(&std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{}: {e}", p.display()))));
                again = true;
            } else if let Some(f) = l.trim().strip_prefix("//@file ") {
                let (lab, p) = f.split_once(' ').unwrap();
                let full = match p.trim().strip_prefix("gen:") {
                    // made from the sources on this run (see selx)
                    Some(g) => format!("{}/{g}", std::env::var("VX_GEN").unwrap_or_default()),
                    None => format!("{root}/{}", p.trim()),
                };
                let src = std::fs::read_to_string(&full).unwrap_or_else(|e| die(format!("{full}: {e}")));
                let mut parsed = syn::parse_file(&src).unwrap_or_else(|e| die(format!("{full}: {e}")));
                mac::expand(&mut parsed.items);
                files.insert(lab.to_string(), (p.trim().to_string(), parsed));
            } else {
                out.push_str(l);
                out.push('\n');
            }
        }
        text = out;
        if !again {
            break;
        }
    }
    let mut o = String::from("// generated by vx; do not edit\n");
    let mut report = vec![];
    for b in parse_blocks(&text) {
        let b = match b {
            Err(plain) => {
                o.push_str(&plain);
                continue;
            }
            Ok(b) => b,
        };
        let (fname, file) = files.get(&b.label).unwrap_or_else(|| die(format!("no file {}", b.label)));
        let mut items = vec![];
        find_items(&file.items, &mut items);
        let mut b = b;
        if probe && b.opt("contract").is_none() {
            b.end.push_str("\nproof { assert(false); }\n");
        }
        let mut log: Vec<String> = vec![];
        let mut lost: Vec<String> = vec![];
        let start = o.lines().count() + 1;
        writeln!(o, "// ---- {} {} from {}", b.kind, b.path, fname).unwrap();
        match b.kind.as_str() {
            "fn" => {
                let (sig, block) = match b.path.strip_prefix("quote::") {
                    Some(n) => {
                        log.push("taken from the procedural macro's quotation".into());
                        find_quoted(file, n, &b)
                    }
                    None => find_fn(&items, &b.path, b.opt("pick")),
                }
                .unwrap_or_else(|| die(format!("lost anchor: fn {} in {}", b.path, fname)));
                let s = lower::lower_fn(sig, block, &b, &mut log, &mut lost).unwrap_or_else(|e| die(format!("{}: {e}", b.path)));
                o.push_str(&s);
            }
            "struct" | "enum" => {
                let s = lower::lower_type(&items, &b, &mut log).unwrap_or_else(|| die(format!("lost anchor: type {} in {}", b.path, fname)));
                o.push_str(&s);
            }
            "glue" => {
                let s = lower::lower_glue(&items, &b, &mut log).unwrap_or_else(|| die(format!("lost anchor: type {} in {}", b.path, fname)));
                o.push_str(&s);
            }
            "const" => {
                let s = lower::lower_const(&items, &b, &mut log).unwrap_or_else(|| die(format!("lost anchor: const {} in {}", b.path, fname)));
                o.push_str(&s);
            }
            _ => unreachable!(),
        }
        o.push('\n');
        let end = o.lines().count();
        log.sort();
        log.dedup();
        report.push(format!(
            "{{\"kind\":{:?},\"path\":{:?},\"file\":{:?},\"start\":{start},\"end\":{end},\"lowerings\":{:?},\"lost\":{:?}}}",
            if (b.kind == "fn" || b.kind == "glue") && b.opt("contract").is_some() { "contract" } else if b.kind == "glue" { "fn" } else { &b.kind }, if b.kind == "glue" { format!("{} (drop glue)", b.path) } else { b.path.clone() }, fname, log, lost
        ));
    }
    std::fs::write(&a[2], o).unwrap();
    std::fs::write(&a[3], format!("[{}]", report.join(",\n"))).unwrap();
}
