//! The lowerings. Each is a source-to-source rewrite that keeps what the code does and is recorded by name.
use crate::print::{self, Texts};
use crate::Block as Spec;
use quote::{quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, parse_str, Expr, Pat, Stmt};

fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

struct L<'a> {
    b: &'a Spec,
    log: &'a mut Vec<String>,
    err: Option<String>,
    n: usize,
    /// variables bound to a pin projection of self
    proj: Vec<String>,
}

const PRIMS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char", "str", "f64"];

fn strip_path(p: &mut syn::Path) -> bool {
    let mut did = false;
    while p.segments.len() > 1 {
        let s = p.segments[0].ident.to_string();
        let low = s.chars().next().unwrap().is_lowercase();
        if low && !PRIMS.contains(&s.as_str()) {
            p.segments = p.segments.iter().skip(1).cloned().collect();
            p.leading_colon = None;
            did = true;
        } else {
            break;
        }
    }
    did
}

fn ident_of(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

fn has_attr_cfg_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| norm(&a.to_token_stream().to_string()).contains("cfg(test)"))
}

/// whether a closure's body leaves the closure by return or `?`
fn leaves(e: &Expr) -> bool {
    struct F(bool);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut f = F(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}

impl<'a> L<'a> {
    fn l(&mut self, s: &str) {
        self.log.push(s.to_string())
    }
    fn fresh(&mut self, s: &str) -> syn::Ident {
        self.n += 1;
        quote::format_ident!("__{}{}", s, self.n)
    }
    /// `let PAT = EXPR;` without reference patterns
    fn bind(&mut self, pat: &Pat, e: Expr) -> Vec<Stmt> {
        match pat {
            Pat::Ident(i) if i.subpat.is_none() && i.mutability.is_none() && matches!(&e, Expr::Path(p) if p.path.is_ident(&i.ident)) => vec![],
            Pat::Reference(r) => match &*r.pat {
                Pat::Ident(i) => {
                    self.l("reference pattern -> dereference");
                    vec![parse_quote!(let #i = *#e;)]
                }
                Pat::TupleStruct(t) => {
                    self.l("reference pattern -> field access");
                    let v = self.fresh("p");
                    let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #e;)];
                    for (k, f) in t.elems.iter().enumerate() {
                        let k = syn::Index::from(k);
                        out.extend(self.bind(f, parse_quote!(#v.#k)));
                    }
                    out
                }
                Pat::Tuple(t) => {
                    self.l("reference pattern -> field access");
                    let v = self.fresh("p");
                    let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #e;)];
                    for (k, f) in t.elems.iter().enumerate() {
                        let k = syn::Index::from(k);
                        out.extend(self.bind(f, parse_quote!(#v.#k)));
                    }
                    out
                }
                Pat::Wild(_) => vec![parse_quote!(let _ = #e;)],
                p => {
                    self.err = Some(format!("reference pattern {}", p.to_token_stream()));
                    vec![]
                }
            },
            Pat::Tuple(t) if t.elems.iter().any(|x| matches!(x, Pat::Reference(_))) => {
                let v = self.fresh("p");
                let mut out: Vec<Stmt> = vec![parse_quote!(let #v = #e;)];
                for (k, f) in t.elems.iter().enumerate() {
                    let k = syn::Index::from(k);
                    out.extend(self.bind(f, parse_quote!(#v.#k)));
                }
                out
            }
            Pat::Type(t) => self.bind(&t.pat, e),
            p => vec![parse_quote!(let #p = #e;)],
        }
    }
    fn simple(p: &Pat) -> bool {
        match p {
            Pat::Reference(_) => false,
            Pat::Tuple(t) => t.elems.iter().all(Self::simple),
            Pat::TupleStruct(t) => t.elems.iter().all(Self::simple),
            _ => true,
        }
    }
    /// the loop that `for PAT in IT { BODY }` stands for
    fn loop_over(&mut self, it: Expr, pat: &Pat, body: Vec<Stmt>) -> Expr {
        if let Some(e) = self.loop_by_index(&it, pat, &body) {
            return e;
        }
        let v = self.fresh("it");
        let it = self.iter_source(it);
        if Self::simple(pat) {
            parse_quote!({ let mut #v = #it; loop { match #v.next() { Some(#pat) => { #(#body)* } None => { break; } } } })
        } else {
            let x = self.fresh("x");
            let b = self.bind(pat, parse_quote!(#x));
            parse_quote!({ let mut #v = #it; loop { match #v.next() { Some(#x) => { #(#b)* #(#body)* } None => { break; } } } })
        }
    }
    /// a slice walked by `x.iter()` or `x.iter_mut()`: (the slice, mutably)
    fn walked(it: &Expr) -> Option<(Expr, bool)> {
        match it {
            Expr::Paren(p) => Self::walked(&p.expr),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "vx_iter") => Some(((*m.receiver).clone(), false)),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "iter_mut" => Some(((*m.receiver).clone(), true)),
            _ => None,
        }
    }
    fn place(e: &Expr) -> Expr {
        // (&mut x) as a place
        match e {
            Expr::Paren(p) => Self::place(&p.expr),
            Expr::Reference(r) => Self::place(&r.expr),
            e => e.clone(),
        }
    }
    /// `for PAT in a.iter().zip(b.iter_mut())` and `for PAT in a.iter_mut()` by index
    fn loop_by_index(&mut self, it: &Expr, pat: &Pat, body: &[Stmt]) -> Option<Expr> {
        let applies = match it {
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => Self::walked(&m.receiver).is_some() && Self::walked(&m.args[0]).is_some() && matches!(pat, Pat::Tuple(t) if t.elems.len() == 2),
            e => matches!(Self::walked(e), Some((_, true))),
        };
        if !applies {
            return None;
        }
        let k = self.fresh("k");
        let v = self.fresh("it");
        let (n, binds): (Expr, Vec<Stmt>) = match it {
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                let (a, am) = Self::walked(&m.receiver)?;
                let (b, bm) = Self::walked(&m.args[0])?;
                let (a, b) = (Self::place(&a), Self::place(&b));
                let Pat::Tuple(t) = pat else { return None };
                if t.elems.len() != 2 {
                    return None;
                }
                let ea: Expr = if am { parse_quote!((&mut #a[#k])) } else { parse_quote!((&#a[#k])) };
                let eb: Expr = if bm { parse_quote!((&mut #b[#k])) } else { parse_quote!((&#b[#k])) };
                let mut bs = self.bind(&t.elems[0], ea);
                bs.extend(self.bind(&t.elems[1], eb));
                (parse_quote!(vx_min((#a).vx_len(), (#b).vx_len())), bs)
            }
            e => {
                let (a, true) = Self::walked(e)? else { return None };
                let a = Self::place(&a);
                let bs = self.bind(pat, parse_quote!((&mut #a[#k])));
                (parse_quote!((#a).vx_len()), bs)
            }
        };
        self.l("for over iter_mut/zip -> loop over indices");
        Some(parse_quote!({ let mut #v = vx_range(0, #n); loop { match #v.next() { Some(#k) => { #(#binds)* #(#body)* } None => { break; } } } }))
    }
    fn iter_source(&mut self, it: Expr) -> Expr {
        match it {
            Expr::Paren(p) => self.iter_source(*p.expr),
            Expr::Range(r) => match (&r.start, &r.end, &r.limits) {
                (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => {
                    self.l("range -> vx_range");
                    parse_quote!(vx_range(#a, #b))
                }
                _ => {
                    self.err = Some("range".into());
                    parse_quote!(())
                }
            },
            Expr::Reference(r) => {
                let e = r.expr;
                if r.mutability.is_some() {
                    parse_quote!((#e).vx_iter_mut())
                } else {
                    parse_quote!((#e).vx_iter())
                }
            }
            Expr::Path(p) => parse_quote!(#p.vx_into_iter()),
            e => e,
        }
    }
    /// f(args) for a closure (inlined) or a function path
    fn apply1(&mut self, f: &Expr, body_of: &mut dyn FnMut(Vec<Stmt>) -> Expr) -> Option<(Pat, Vec<Stmt>)> {
        let _ = body_of;
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let b = &c.body;
                let p = c.inputs[0].clone();
                let p = if let Pat::Type(t) = p { *t.pat } else { p };
                Some((p, vec![Stmt::Expr((**b).clone(), None)]))
            }
            Expr::Path(p) => {
                let n = p.path.segments.last().unwrap().ident.to_string();
                let e: Expr = if self.world_call(&n) { parse_quote!(#p(__x, w)) } else { parse_quote!(#p(__x)) };
                Some((parse_pat("__x"), vec![Stmt::Expr(e, None)]))
            }
            _ => None,
        }
    }
    fn tail_self_ret(&self, c: &syn::ExprClosure) -> bool {
        // a closure whose body may `return` cannot be inlined
        struct R(bool);
        impl<'ast> syn::visit::Visit<'ast> for R {
            fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
                self.0 = true
            }
            fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
                self.0 = true
            }
            fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
        }
        let mut r = R(false);
        syn::visit::Visit::visit_expr(&mut r, &c.body);
        r.0
    }
    fn world_call(&self, name: &str) -> bool {
        self.b.all("world").any(|w| w.split(',').any(|x| x.trim() == name))
    }
    fn method(&mut self, mut m: syn::ExprMethodCall) -> Expr {
        let name = m.method.to_string();
        // pin plumbing
        if let Some(r) = ident_of(&m.receiver) {
            if r == "self" && (name == "get_mut" || name == "as_mut") && m.args.is_empty() && self.b.opt("pin").is_some() {
                self.l("Pin<&mut Self> -> &mut Self");
                return *m.receiver;
            }
            if r == "self" && (name == "project" || name == "get_unchecked_mut") && m.args.is_empty() {
                self.l("pin projection -> fields of self");
                return *m.receiver;
            }
        }
        if self.b.opt("pin").is_some() {
            // (&mut self.f).as_mut() on a projected field is a reborrow
            if let Expr::Paren(p) = &*m.receiver {
                if let Expr::Reference(_) = &*p.expr {
                    if name == "as_mut" && m.args.is_empty() {
                        self.l("Pin::as_mut -> reborrow");
                        return *m.receiver;
                    }
                    if name == "set" && m.args.len() == 1 {
                        self.l("Pin::set -> assignment");
                        let (r, a) = (&m.receiver, &m.args[0]);
                        return parse_quote!(*#r = #a);
                    }
                }
            }
            if let Expr::Paren(p) = &*m.receiver {
                if let Expr::Reference(r) = &*p.expr {
                    if matches!(&*r.expr, Expr::Field(f) if ident_of(&f.base).as_deref() == Some("self")) && !["as_mut", "set", "get_mut", "project", "poll", "poll_next"].contains(&name.as_str()) {
                        // method calls reborrow by themselves
                        m.receiver = r.expr.clone();
                    }
                }
            }
            if name == "as_pin_mut" && m.args.is_empty() {
                self.l("Option::as_pin_mut -> as_mut");
                m.method = quote::format_ident!("as_mut");
                return Expr::MethodCall(m);
            }
        }
        if self.b.opt("cell").is_some() && m.args.is_empty() && (name == "borrow_mut" || name == "borrow") {
            self.l("RefCell borrow -> reference");
            let r = &m.receiver;
            return if name == "borrow" { parse_quote!((&#r)) } else { parse_quote!((&mut #r)) };
        }
        if name == "retain" && m.args.len() == 1 && self.b.opt("retain").is_some() {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 2 && !leaves(&c.body) {
                    self.l("retain(closure) -> loop over the entries, in some order");
                    let (r, p0, p1, body) = (&m.receiver, &c.inputs[0], &c.inputs[1], &c.body);
                    return parse_quote!({ let mut __t = #r.vx_turns(); loop { let __keep = match #r.vx_turn(&__t) { Some((#p0, #p1)) => { #body } None => { break; } }; #r.vx_kept(&mut __t, __keep); } });
                }
            }
        }
        if let Expr::MethodCall(r) = &*m.receiver {
            // A.B->F: x.A().B(..) is x.F(..)
            let to = self.b.all("chain").flat_map(|r| r.split(',')).find_map(|c| c.split_once("->").and_then(|(f, t)| f.trim().split_once('.').filter(|f| r.method == f.0 && r.args.is_empty() && name == f.1).map(|_| t.trim().to_string())));
            if let Some(t) = to {
                self.l(&format!("{}().{name}(..) -> {t}(..) (contract in the shim)", r.method));
                let f = quote::format_ident!("{}", t);
                let (x, a) = (&r.receiver, &m.args);
                return parse_quote!(#x.#f(#a));
            }
        }
        if name == "next_if" && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 && !leaves(&c.body) {
                    self.l("next_if(closure) -> peek; next");
                    let (r, p, body) = (&m.receiver, &c.inputs[0], &c.body);
                    return parse_quote!({ let __n = match #r.peek() { Some(__p) => { let #p = &__p; #body } None => false }; if __n { #r.next() } else { None } });
                }
            }
        }
        if let Some((st, vars, rest)) = self.b.all("defun").find_map(|d| { let p: Vec<&str> = d.split(':').map(|x| x.trim()).collect(); if p[0] == name { Some((p[1].to_string(), p[2].to_string(), p[3..].join(":"))) } else { None } }) {
            if m.args.len() == 1 && matches!(m.args[0], Expr::Closure(_)) {
                self.l(&format!("closure given to {name} -> {st} with what it captures (defunctionalised)"));
                let vs: Vec<proc_macro2::Ident> = vars.split(',').map(|v| quote::format_ident!("{}", v.trim())).collect();
                let more: proc_macro2::TokenStream = rest.parse().unwrap();
                let st = quote::format_ident!("{}", st);
                m.args[0] = parse_quote!(&mut __c);
                let args = self.b.all("passto").filter_map(|p| p.split_once(':').filter(|x| x.0.trim().rsplit('.').next() == Some(name.as_str())).map(|x| x.1.trim().to_string())).collect::<Vec<_>>();
                for a in args {
                    m.args.push(parse_str(&a).unwrap());
                }
                return parse_quote!({ let mut __c = #st { #(#vs: #vs,)* #more }; #m; #(#vs = __c.#vs;)* });
            }
        }
        if self.b.opt("nested") == Some(name.as_str()) && m.args.len() == 1 {
            if let Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 && !leaves(&c.body) {
                    self.l(&format!("{name}(closure) -> enter; the closure's body; leave"));
                    let (r, p, body) = (&m.receiver, &c.inputs[0], &c.body);
                    return parse_quote!({ let mut __sub = #r.vx_enter(); let __r = { let #p = &mut __sub; #body }; #r.vx_leave(__sub, __r) });
                }
            }
        }
        if name == "or_insert_with" && m.args.len() == 1 && self.b.opt("oiw").is_some() {
            if let (Expr::MethodCall(en), Expr::Closure(c)) = (&*m.receiver, &m.args[0]) {
                if en.method == "entry" && en.args.len() == 1 {
                    self.l("entry(k).or_insert_with(f) -> insert if absent; get_mut");
                    let (map, k, body) = (&en.receiver, &en.args[0], &c.body);
                    return parse_quote!({ let __k = #k; if !#map.contains_key(&__k) { let __v = #body; #map.insert(__k, __v); } #map.get_mut(&__k).unwrap() });
                }
            }
        }
        let recv = norm(&m.receiver.to_token_stream().to_string());
        let to = |x: &str| match x.trim().rsplit_once('.') {
            // FIELD.METHOD: only on that field
            Some((f, n)) => n == name && recv.trim_start_matches("(&mut").trim_end_matches(')').ends_with(&format!(".{f}")),
            None => x.trim() == name,
        };
        let passed: Vec<String> = self.b.all("passto").filter_map(|p| p.split_once(':').filter(|x| to(x.0)).map(|x| x.1.trim().to_string())).collect();
        for a in passed {
            self.l(&format!("state passed to {name}: {a}"));
            m.args.push(parse_str(&a).unwrap());
        }
        // thread locals
        if name == "with" && m.args.len() == 1 {
            if let Some(r) = ident_of(&m.receiver) {
                let t = self.b.all("tls").find_map(|t| t.split_once(':').filter(|x| x.0.trim() == r).map(|x| x.1.trim().to_string()));
                if let (Some(t), Expr::Closure(c)) = (t, &m.args[0]) {
                    if !self.tail_self_ret(c) {
                        self.l(&format!("thread local {r} -> {t}"));
                        let e: Expr = parse_str(&t).unwrap();
                        let b = self.bind(&c.inputs[0].clone(), e);
                        let body = &c.body;
                        return parse_quote!({ #(#b)* #body });
                    }
                }
            }
        }
        if name == "set" && m.args.len() == 2 {
            if let Some(r) = ident_of(&m.receiver) {
                let t = self.b.all("tls").find_map(|t| t.split_once(':').filter(|x| x.0.trim() == r).map(|x| x.1.trim().to_string()));
                if let (Some(t), Expr::Closure(c)) = (t, &m.args[1]) {
                    if !self.tail_self_ret(c) && c.inputs.is_empty() {
                        self.l(&format!("scoped thread local {r} set for the extent of a closure -> shadowing {t}"));
                        let t = quote::format_ident!("{}", t);
                        let (v, body) = (&m.args[0], &c.body);
                        return parse_quote!({ let #t = #v; #body });
                    }
                }
            }
        }
        if m.args.len() == 1 && name == "for_each" {
            let f = m.args[0].clone();
            let ret = matches!(&f, Expr::Closure(c) if self.tail_self_ret(c));
            if !ret {
                if let Some((p, b)) = self.apply1(&f, &mut |_| parse_quote!(())) {
                    self.l("for_each -> loop over next()");
                    let b: Vec<Stmt> = b.into_iter().map(|s| match s { Stmt::Expr(e, None) => Stmt::Expr(e, Some(Default::default())), s => s }).collect();
                    return self.loop_over(*m.receiver, &p, b);
                }
            }
        }
        if m.args.len() == 2 && name == "fold" {
            if let Expr::Closure(c) = &m.args[1] {
                if c.inputs.len() == 2 && !self.tail_self_ret(c) {
                    self.l("fold -> loop over next()");
                    let init = &m.args[0];
                    let acc = &c.inputs[0];
                    let body = &c.body;
                    let a = self.fresh("acc");
                    let lp = self.loop_over(*m.receiver, &c.inputs[1], vec![parse_quote!(let #acc = #a;), parse_quote!(#a = #body;)]);
                    return parse_quote!({ let mut #a = #init; #lp #a });
                }
            }
        }
        if m.args.len() == 1 && name == "extend" && self.b.opt("extend").is_some() {
            let recv = &m.receiver;
            // (a..b).map(|i| E)
            if let Expr::MethodCall(mm) = &m.args[0] {
                if mm.method == "map" && mm.args.len() == 1 {
                    if let Expr::Closure(c) = &mm.args[0] {
                        self.l("extend(map) -> loop of push");
                        let body = &c.body;
                        let src = (*mm.receiver).clone();
                        return self.loop_over(src, &c.inputs[0].clone(), vec![parse_quote!(#recv.push(#body);)]);
                    }
                }
            }
            self.l("extend -> loop of push");
            let r = recv.clone();
            return self.loop_over(m.args[0].clone(), &parse_pat("__e"), vec![parse_quote!(#r.push(__e);)]);
        }
        if m.args.len() == 1 {
            if name == "map" && self.b.all("opt").any(|o| o.split(',').any(|x| x == name)) && norm(&m.args[0].to_token_stream().to_string()) == "Clone::clone" {
                self.l("map(Clone::clone) -> map(|x| x.clone())");
                m.args[0] = parse_quote!(|__x| __x.clone());
            }
            if let Expr::Closure(c) = &m.args[0] {
                if !self.tail_self_ret(c) && self.b.all("opt").any(|o| o.split(',').any(|x| x == name)) {
                    let (r, body) = (&m.receiver, &c.body);
                    let pat = c.inputs.first().cloned();
                    self.l(&format!("Option/Poll::{name} -> match"));
                    match name.as_str() {
                        "map" => {
                            let p = pat.unwrap();
                            if Self::simple(&p) {
                                return parse_quote!(match #r { Some(#p) => Some(#body), None => None });
                            }
                            let b = self.bind(&p, parse_quote!(__m));
                            return parse_quote!(match #r { Some(__m) => Some({ #(#b)* #body }), None => None });
                        }
                        "and_then" => {
                            let p = pat.unwrap();
                            return parse_quote!(match #r { Some(#p) => #body, None => None });
                        }
                        "is_some_and" => {
                            let p = pat.unwrap();
                            return parse_quote!(match #r { Some(#p) => #body, None => false });
                        }
                        "unwrap_or_else" => return parse_quote!(match #r { Some(__v) => __v, None => #body }),
                        "then" if c.inputs.is_empty() => return parse_quote!(if #r { Some(#body) } else { None }),
                        "or_else" => return parse_quote!(match #r { Some(__v) => Some(__v), None => #body }),
                        _ => {}
                    }
                }
                if !self.tail_self_ret(c) && self.b.all("pollmap").count() > 0 && name == "map" {
                    let (r, body) = (&m.receiver, &c.body);
                    let p = &c.inputs[0];
                    self.l("Poll::map -> match");
                    return parse_quote!(match #r { Poll::Ready(#p) => Poll::Ready(#body), Poll::Pending => Poll::Pending });
                }
            }
        }
        if name == "then_some" && m.args.len() == 1 && self.b.all("opt").any(|o| o.split(',').any(|x| x == name)) {
            self.l("bool::then_some -> if");
            let (r, x) = (&m.receiver, &m.args[0]);
            return parse_quote!({ let __s = #x; if #r { Some(__s) } else { None } });
        }
        if let Some(n) = self.b.all("rename").flat_map(|r| r.split(',')).find_map(|r| r.split_once(':').filter(|x| x.0.trim() == name).map(|x| x.1.trim().to_string())) {
            self.l(&format!("method {name} -> {n} (contract in the shim)"));
            m.method = quote::format_ident!("{}", n);
        }
        if self.world_call(&name) {
            m.args.push(parse_quote!(w));
        }
        if let Some(v) = self.b.all("via").find_map(|r| r.split_once(':').filter(|x| x.0.split(',').any(|y| y.trim() == name)).map(|x| x.1.trim().to_string())) {
            self.l(&format!("auto-deref of {name} written out ({v})"));
            let v = quote::format_ident!("{}", v);
            let r = &m.receiver;
            m.receiver = Box::new(parse_quote!(#r.#v()));
        }
        Expr::MethodCall(m)
    }
    /// cell guards read as references: Ref::map and friends applied on the spot
    fn lens(&mut self, e: &mut Expr) {
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        if p.qself.is_some() || p.path.segments.len() < 2 {
            return;
        }
        let n = p.path.segments.len();
        let (ty, f) = (p.path.segments[n - 2].ident.to_string(), p.path.segments[n - 1].ident.to_string());
        if (ty == "Ref" || ty == "RefMut") && c.args.len() == 2 {
            let Expr::Closure(k) = &c.args[1] else { return };
            if k.inputs.len() != 1 || leaves(&k.body) {
                return;
            }
            let (a, pat, body) = (&c.args[0], &k.inputs[0], &k.body);
            match f.as_str() {
                "map" => *e = parse_quote!({ let #pat = #a; #body }),
                "filter_map" => *e = parse_quote!(match { let #pat = #a; #body } { Some(__v) => Ok(__v), None => Err(()) }),
                _ => return,
            }
            self.l(&format!("{ty}::{f} of a guard -> its closure applied to the reference"));
        } else if (ty == "Option" && (f == "map" || f == "and_then") || self.b.all("ufcs").any(|x| x == ty)) && !c.args.is_empty() {
            self.l(&format!("{ty}::{f}(x, ..) -> x.{f}(..)"));
            let f = quote::format_ident!("{}", f);
            let (a, r) = (match &c.args[0] { Expr::Reference(r) => (*r.expr).clone(), a => a.clone() }, c.args.iter().skip(1));
            *e = parse_quote!(#a.#f(#(#r),*));
        }
    }
    fn mac(&mut self, m: &syn::Macro) -> Option<Expr> {
        if self.b.opt("px").is_some() && m.path.segments.last().unwrap().ident == "format" {
            // format!("{x}px") and format!("{}px", x)
            let args = m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok()?;
            let Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. })) = args.first() else { return None };
            let t = t.value();
            let name = t.strip_suffix("px")?.strip_prefix('{')?.strip_suffix('}')?.to_string();
            self.l("format!(\"{x}px\") -> vx_px(x) (contract in the shim)");
            if name.is_empty() {
                let x = args.iter().nth(1)?;
                return Some(parse_quote!(vx_px(#x)));
            }
            let x = quote::format_ident!("{}", name);
            return Some(parse_quote!(vx_px(#x)));
        }
        let name = m.path.segments.last().unwrap().ident.to_string();
        let args = || m.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated).ok();
        match name.as_str() {
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let e = i.parse()?;
                        i.parse::<syn::Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(syn::Token![if]) {
                            i.parse::<syn::Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<syn::Token![,]>>();
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                self.l("matches! -> match");
                Some(match g {
                    None => parse_quote!(match #e { #p => true, _ => false }),
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                })
            }
            "vec" => {
                if let Some(a) = args() {
                    let n = a.len();
                    self.l("vec![..] -> pushes");
                    let es = a.iter();
                    let v = self.fresh("v");
                    let _ = n;
                    return Some(parse_quote!({ let mut #v = Vec::new(); #(#v.push(#es);)* #v }));
                }
                struct R(Expr, Expr);
                impl syn::parse::Parse for R {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse()?;
                        i.parse::<syn::Token![;]>()?;
                        Ok(R(a, i.parse()?))
                    }
                }
                let R(a, n) = m.parse_body().ok()?;
                self.l("vec![x; n] -> vx_repeat");
                Some(parse_quote!(vx_repeat(#a, #n)))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                self.l("panic!/unreachable! -> an obligation not to get there");
                Some(parse_quote!(vx_unreachable()))
            }
            "assert" => {
                let a = args()?;
                let c = a.first()?;
                if self.b.opt("assertpanics").is_some() {
                    self.l("assert! -> if not, panic");
                    return Some(parse_quote!(if !(#c) { vx_panic(); }));
                }
                self.l("assert! -> an obligation");
                Some(parse_quote!(vx_assert(#c)))
            }
            "assert_eq" => {
                let a = args()?;
                let (x, y) = (&a[0], &a[1]);
                Some(parse_quote!(vx_assert(#x == #y)))
            }
            "debug_assert" | "debug_assert_eq" => {
                self.l("debug_assert! dropped");
                Some(parse_quote!(()))
            }
            _ => None,
        }
    }
}

impl<'a> L<'a> {
    /// raw pointers are read as values (of which allocation, which place in it); reading through one is a call on the heap
    fn rawptr(&mut self, e: &mut Expr) {
        if let Expr::Reference(r) = &*e {
            if let Expr::Unary(u) = &*r.expr {
                if let (syn::UnOp::Deref(_), None) = (&u.op, &r.mutability) {
                    self.l("&*p of a raw pointer -> vx_deref(p, w) (contract in the shim)");
                    let x = &u.expr;
                    *e = parse_quote!(vx_deref(#x, w));
                    return;
                }
            }
            if let (Expr::Call(_), None) = (&*r.expr, &r.mutability) {
                self.l("&f(..), a constant -> vx_static(f(..))");
                let x = &r.expr;
                *e = parse_quote!(vx_static(#x));
                return;
            }
        }
        if let Expr::Reference(r) = &*e {
            if let (Expr::Path(p), None) = (&*r.expr, &r.mutability) {
                if p.path.segments.last().map_or(false, |s| s.ident.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_')) {
                    self.l("&STATIC -> vx_static(STATIC)");
                    let x = &r.expr;
                    *e = parse_quote!(vx_static(#x));
                    return;
                }
            }
        }
        if let Expr::Call(c) = &mut *e {
            // the functions of a vtable, by name
            if let (true, Some(names)) = (norm(&c.func.to_token_stream().to_string()).ends_with("RawWakerVTable::new"), self.b.opt("vtable")) {
                let names: Vec<&str> = names.split(',').map(|x| x.trim()).collect();
                for (k, a) in c.args.iter_mut().enumerate() {
                    let t = match &*a {
                        Expr::Closure(_) => names.get(k).map(|x| x.to_string()),
                        x => { let n = norm(&x.to_token_stream().to_string()); names.iter().find_map(|x| x.split_once(':').filter(|x| x.0 == n).map(|x| x.1.to_string())) }
                    };
                    if let Some(t) = t {
                        *a = parse_str(&t).unwrap();
                    }
                }
                self.l("the functions of the vtable -> their names; each is taken on its own");
            }
        }
        if let Expr::Unary(u) = &*e {
            if let syn::UnOp::Deref(_) = u.op {
                self.l("*p of a raw pointer -> vx_read(p, w) (contract in the shim)");
                let x = &u.expr;
                *e = parse_quote!(vx_read(#x, w));
                return;
            }
        }
        if let Expr::Cast(c) = &*e {
            if let syn::Type::Ptr(_) = &*c.ty {
                self.l("cast between pointer types -> the same pointer");
                let x = &c.expr;
                *e = parse_quote!((#x));
                return;
            }
        }
        if let Expr::Repeat(r) = &*e {
            self.l("[p; n] -> vx_slots(p, n)");
            let (x, n) = (&r.expr, &r.len);
            *e = parse_quote!(vx_slots(#x, #n));
            return;
        }
        if let Expr::Macro(m) = &*e {
            if m.mac.path.is_ident("vec") {
                if let Ok(r) = syn::parse2::<syn::ExprRepeat>({ let t = &m.mac.tokens; quote::quote!([#t]) }) {
                    self.l("vec![p; n] -> vx_slots(p, n)");
                    let (x, n) = (&r.expr, &r.len);
                    *e = parse_quote!(vx_slots(#x, #n));
                }
            }
        }
    }
}

fn parse_pat(s: &str) -> Pat {
    syn::parse::Parser::parse_str(Pat::parse_single, s).unwrap()
}

impl<'a> VisitMut for L<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        visit_mut::visit_path_mut(self, p);
        if strip_path(p) {
            self.l("module paths shortened");
        }
        for r in self.b.all("path") {
            if let Some((a, b)) = r.split_once("->") {
                if norm(&p.to_token_stream().to_string()) == norm(a) {
                    *p = parse_str(b.trim()).unwrap();
                    self.l(&format!("path {r}"));
                    break;
                }
            }
        }
    }
    fn visit_ident_mut(&mut self, i: &mut proc_macro2::Ident) {
        // names of the verifier's own types
        if i == "real" || i == "int" || i == "nat" {
            *i = quote::format_ident!("vx_{}", i);
        }
    }
    fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
        let before = m.arms.len();
        m.arms.retain(|a| !has_attr_cfg_test(&a.attrs));
        if m.arms.len() != before {
            self.l("cfg(test) arms dropped");
        }
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
    fn visit_local_mut(&mut self, l: &mut syn::Local) {
        if self.b.opt("guardfn").is_some() && matches!(l.pat, Pat::Wild(_)) && l.init.as_ref().map_or(false, |i| norm(&i.expr.to_token_stream().to_string()).starts_with("scopeguard::guard(")) {
            self.err = Some("a guard that is dropped at once".into());
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (k, mut s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            // nested items are extracted on their own
            if let (Stmt::Item(syn::Item::Static(i)), true) = (&s, self.b.opt("rawptr").is_some()) {
                self.l("static -> let");
                let (n, mut x) = (i.ident.clone(), (*i.expr).clone());
                self.visit_expr_mut(&mut x);
                out.push(parse_quote!(let #n = #x;));
                continue;
            }
            if let Stmt::Item(i) = &s {
                if matches!(i, syn::Item::Use(_) | syn::Item::Fn(_)) {
                    continue;
                }
            }
            if let Stmt::Local(l) = &s {
                // `let this = self.project();`
                if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::MethodCall(m) = &*init.expr {
                        if m.method == "project" && ident_of(&m.receiver).as_deref() == Some("self") {
                            self.proj.push(i.ident.to_string());
                            self.l("pin projection -> fields of self");
                            continue;
                        }
                    }
                }
            }
            if let Stmt::Macro(m) = &s {
                let semi = m.semi_token;
                if let Some(e) = self.mac(&m.mac) {
                    let last = k + 1 == n;
                    s = Stmt::Expr(e, if last && semi.is_none() { None } else { Some(Default::default()) });
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            if let Stmt::Local(l) = &s {
                if !Self::simple(&l.pat) {
                    if let Some(init) = &l.init {
                        if init.diverge.is_none() {
                            let (p, e) = (l.pat.clone(), (*init.expr).clone());
                            out.extend(self.bind(&p, e));
                            continue;
                        }
                    }
                }
            }
            // a loop that came out of a tail expression closure keeps its value ()
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for r in self.b.all("expr") {
            if let Some((a, b)) = r.split_once("->") {
                if norm(&e.to_token_stream().to_string()) == norm(a) {
                    *e = parse_str(b.trim()).unwrap();
                    self.l(&format!("expression {r}"));
                    return;
                }
            }
        }
        if self.b.opt("rawptr").is_some() {
            self.rawptr(e);
        }
        if let Expr::Struct(st) = e {
            // FIELD:EXPR: the default value of the type of a field
            for f in st.fields.iter_mut() {
                if norm(&f.expr.to_token_stream().to_string()).ends_with("Default::default()") {
                    let m = f.member.to_token_stream().to_string();
                    let to = self.b.all("fielddef").find_map(|d| d.split_once(':').filter(|d| d.0.trim() == m).map(|d| d.1.trim().to_string()));
                    if let Some(t) = to {
                        self.l(&format!("default value of field {m} -> {t}"));
                        f.expr = parse_str(&t).unwrap();
                    }
                }
            }
        }
        // before the children: field of a projected variable
        if let Expr::Unary(u) = e {
            if let (syn::UnOp::Deref(_), Expr::Field(f)) = (&u.op, &*u.expr) {
                if ident_of(&f.base).map_or(false, |i| self.proj.contains(&i)) {
                    let m = &f.member;
                    *e = parse_quote!(self.#m);
                    return;
                }
            }
        }
        if let Expr::Field(f) = e {
            if ident_of(&f.base).map_or(false, |i| self.proj.contains(&i)) {
                let m = &f.member;
                *e = parse_quote!((&mut self.#m));
                return;
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(x) = self.mac(&m.mac) {
                *e = x;
            }
        }
        if let Expr::Call(c) = e {
            let p = norm(&c.func.to_token_stream().to_string());
            if (p == "Pin::new" || p == "std::pin::Pin::new" || p.ends_with("Pin::new_unchecked")) && c.args.len() == 1 {
                self.l("Pin::new(x) -> x");
                let a = c.args[0].clone();
                *e = parse_quote!((#a));
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                self.l("while let -> loop match");
                let (p, x, b) = (&l.pat, &l.expr, &w.body.stmts);
                let lab = &w.label;
                *e = parse_quote!(#lab loop { match #x { #p => { #(#b)* } _ => { break; } } });
            }
        }
        if let Expr::Reference(r) = e {
            if let (Some(_), Expr::Index(x), true) = (&r.mutability, &*r.expr, self.b.opt("slices").is_some()) {
                if let Expr::Range(g) = &*x.index {
                    if let (Some(lo), Some(hi)) = (&g.start, &g.end) {
                        self.l("&mut x[a..b] -> vx_sub / vx_sub_incl");
                        let f = quote::format_ident!("{}", if matches!(g.limits, syn::RangeLimits::HalfOpen(_)) { "vx_sub" } else { "vx_sub_incl" });
                        let v = &x.expr;
                        *e = parse_quote!(#f(&mut #v, #lo, #hi));
                    }
                }
            }
        }
        if let (Expr::Reference(r), true) = (&*e, self.b.opt("subslice").is_some()) {
            if let (None, Expr::Index(x)) = (&r.mutability, &*r.expr) {
                if let Expr::Range(g) = &*x.index {
                    let v = &x.expr;
                    if let (Some(lo), Some(hi), syn::RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                        self.l("&x[a..b] -> x.vx_between(a, b)");
                        *e = parse_quote!(#v.vx_between(#lo, #hi));
                    } else if let (Some(lo), None) = (&g.start, &g.end) {
                        self.l("&x[a..] -> x.vx_from(a)");
                        *e = parse_quote!(#v.vx_from(#lo));
                    } else if let (None, Some(hi), syn::RangeLimits::HalfOpen(_)) = (&g.start, &g.end, &g.limits) {
                        self.l("&x[..b] -> x.vx_between(0, b)");
                        *e = parse_quote!(#v.vx_between(0, #hi));
                    }
                }
            }
        }
        if let Expr::While(w) = e {
            // a condition that does something
            if norm(&w.cond.to_token_stream().to_string()).contains(".next_if(") {
                self.l("while C -> loop if C");
                let (c, b, lab) = (&w.cond, &w.body.stmts, &w.label);
                *e = parse_quote!(#lab loop { if #c { #(#b)* } else { break; } });
            }
        }
        if let Expr::Unary(u) = e {
            if matches!(u.op, syn::UnOp::Deref(_)) && self.b.opt("gderef").is_some() {
                if let Some(i) = ident_of(&u.expr).filter(|i| i != "self") {
                    self.l("dereference of a guard written out (deref_mut)");
                    let i = quote::format_ident!("{}", i);
                    *e = parse_quote!(*#i.deref_mut());
                }
            }
        }
        if self.b.opt("lens").is_some() {
            self.lens(e);
        }
        if let (Expr::Await(a), Some(env)) = (&*e, self.b.opt("pollfn")) {
            if let Expr::Call(c) = &*a.base {
                if let (Expr::Path(f), Some(Expr::Closure(k))) = (&*c.func, c.args.first()) {
                    if f.path.segments.last().is_some_and(|x| x.ident == "poll_fn") && k.inputs.len() == 1 && !leaves(&k.body) {
                        self.l("poll_fn(closure).await -> the closure's body in a loop, until it is ready; before each round, whatever else goes on");
                        let (p, body) = (&k.inputs[0], &k.body);
                        let env: Expr = parse_str(env).unwrap();
                        *e = parse_quote!({ let mut __got = None; loop { #env; let mut __cx = vx_context(); let #p = &mut __cx; let __p = #body; match __p { Poll::Ready(__v) => { __got = Some(__v); break; } Poll::Pending => {} } } vx_got(__got) });
                    }
                }
            }
        }
        if let (Expr::MethodCall(m), Some(t)) = (&*e, self.b.opt("mapcollect")) {
            // (a..b).map(closure).collect(): the closure is a function of its own
            if let (true, Expr::MethodCall(g)) = (m.method == "collect" && m.args.is_empty(), &*m.receiver) {
                let r = match &*g.receiver { Expr::Paren(p) => &*p.expr, x => x };
                if let (true, Some(Expr::Closure(_)), Expr::Range(r)) = (g.method == "map" && g.args.len() == 1, g.args.first(), r) {
                    if let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                        self.l(&format!("(a..b).map(closure).collect() -> {t}; the closure is a function of its own"));
                        let t = t.replace("$a", &a.to_token_stream().to_string()).replace("$b", &b.to_token_stream().to_string());
                        *e = parse_str(&t).unwrap();
                        return;
                    }
                }
            }
        }
        if let Expr::Await(a) = e {
            if self.b.opt("await").is_some() {
                self.l("x.await -> x (the contract of x is of the whole)");
                *e = (*a.base).clone();
            }
        }
        if let Expr::Call(c) = e {
            if let (Expr::Path(p), Some(v)) = (&*c.func, self.b.opt("guardfn")) {
                if norm(&p.path.to_token_stream().to_string()) == "scopeguard::guard" && matches!(c.args.get(1), Some(Expr::Closure(_))) {
                    self.l("scopeguard: the closure is a function of its own, run when the guard is dropped");
                    *e = parse_str(v).unwrap();
                }
            }
        }
        if let Expr::Call(c) = e {
            // calling a function kept in a field
            let f = match &*c.func { Expr::Paren(p) => &*p.expr, f => f };
            if let Some(i) = ident_of(f).filter(|i| self.b.all("fnvar").any(|x| i == x.trim())) {
                self.l(&format!("calling the closure {i} -> its call method (contract: VxPred / VxFn)"));
                let (i, a) = (quote::format_ident!("{}", i), c.args.clone());
                *e = parse_quote!(#i.call(#a));
            } else if let Expr::Field(f) = f {
                if let syn::Member::Named(n) = &f.member {
                    if self.b.all("fnfield").any(|x| n == x.trim()) {
                        let (f, a) = (f.clone(), c.args.clone());
                        self.l(&format!("calling the closure in field {n} -> its call method (contract: VxFn)"));
                        *e = parse_quote!(#f.call(#a));
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(_) => {
                let Expr::MethodCall(m) = std::mem::replace(e, Expr::PLACEHOLDER) else { unreachable!() };
                let out = self.method(m);
                *e = out;
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if self.world_call(&n) {
                        c.args.push(parse_quote!(w));
                    }
                    let more: Vec<String> = self.b.all("passcall").filter_map(|p| p.split_once(':').filter(|x| x.0.trim() == n).map(|x| x.1.trim().to_string())).collect();
                    for a in more {
                        self.l(&format!("state passed to {n}: {a}"));
                        c.args.push(parse_str(&a).unwrap());
                    }
                    let full = norm(&p.path.to_token_stream().to_string());
                    if let Some(r) = self.b.all("call").find_map(|r| r.split_once("->").filter(|x| norm(x.0) == full).map(|x| x.1.trim().to_string())) {
                        self.l(&format!("call {full} -> {r} (contract in the shim)"));
                        let f: Expr = parse_str(&r).unwrap();
                        c.func = Box::new(f);
                    }
                    if let Some(r) = self.b.all("fnarg").find_map(|r| r.split_once("->").filter(|x| norm(x.0) == full).map(|x| x.1.trim().to_string())) {
                        if matches!(c.args.first(), Some(Expr::Closure(_))) && c.args.len() == 1 {
                            self.l(&format!("closure given to {full} -> a function of its own; what it captures is passed: {r}"));
                            *e = parse_str(&r).unwrap();
                            return;
                        }
                    }
                    if full == "from_fn" {
                        if let Some(t) = self.b.opt("fromfn") {
                            self.l("from_fn(closure) -> iterator struct (defunctionalised)");
                            *e = parse_str(t).unwrap();
                        }
                    }
                }
            }
            Expr::ForLoop(f) => {
                self.l("for -> loop over next()");
                let body = f.body.stmts.clone();
                let lab = f.label.clone();
                let it = (*f.expr).clone();
                if lab.is_some() {
                    self.err = Some("labelled for".into());
                }
                *e = self.loop_over(it, &f.pat.clone(), body);
            }
            Expr::Index(x) if self.b.opt("pin").is_some() => {
                if let Expr::Paren(p) = &*x.expr {
                    if let Expr::Reference(r) = &*p.expr {
                        if matches!(&*r.expr, Expr::Field(f) if ident_of(&f.base).as_deref() == Some("self")) {
                            x.expr = r.expr.clone();
                        }
                    }
                }
            }
            Expr::Range(r) if self.b.opt("ranges").is_some() => {
                self.l("range value -> VxSpan");
                let (f, a): (&str, Vec<Expr>) = match (&r.start, &r.end, &r.limits) {
                    (Some(a), None, _) => ("vx_from", vec![(**a).clone()]),
                    (None, Some(b), syn::RangeLimits::HalfOpen(_)) => ("vx_below", vec![(**b).clone()]),
                    (None, Some(b), _) => ("vx_upto", vec![(**b).clone()]),
                    (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => ("vx_span", vec![(**a).clone(), (**b).clone()]),
                    (Some(a), Some(b), _) => ("vx_span_incl", vec![(**a).clone(), (**b).clone()]),
                    (None, None, _) => ("vx_all", vec![]),
                };
                let f = quote::format_ident!("{}", f);
                *e = parse_quote!(#f(#(#a),*));
            }
            Expr::Cast(c) if self.b.opt("floats").is_some() => {
                let x = &c.expr;
                match norm(&c.ty.to_token_stream().to_string()).as_str() {
                    "f64" | "F" => {
                        self.l("cast to f64 -> vx_float (contract in the shim)");
                        *e = parse_quote!(vx_float(#x));
                    }
                    "usize" => {
                        self.l("cast to usize -> vx_usize (contract in the shim)");
                        *e = parse_quote!((#x).vx_usize());
                    }
                    _ => {}
                }
            }
            Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(f), .. }) if self.b.opt("floats").is_some() => {
                let d = f.base10_digits().to_string();
                let (a, b) = d.split_once('.').unwrap_or((&d, ""));
                match (format!("{a}{b}").parse::<u64>(), 10u64.checked_pow(b.len() as u32)) {
                    (Ok(n), Some(m)) => {
                        self.l("float literal -> vx_lit(numerator, denominator)");
                        *e = parse_quote!(vx_lit(#n, #m));
                    }
                    _ => self.err = Some(format!("float literal {d}")),
                }
            }
            Expr::Match(m) if self.b.opt("strmatch").is_some() && !m.arms.is_empty() => {
                fn lits(p: &Pat) -> Option<Vec<Expr>> {
                    match p {
                        Pat::Lit(l) => Some(vec![Expr::Lit(l.clone())]),
                        Pat::Or(o) => o.cases.iter().map(lits).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                        Pat::Paren(p) => lits(&p.pat),
                        _ => None,
                    }
                }
                let n = m.arms.len() - 1;
                if m.arms.iter().all(|a| a.guard.is_none()) && matches!(m.arms[n].pat, Pat::Wild(_)) {
                    if let Some(l) = m.arms[..n].iter().map(|a| lits(&a.pat)).collect::<Option<Vec<_>>>() {
                        self.l("match on string literals -> comparisons in order");
                        let mut r = (*m.arms[n].body).clone();
                        for (a, l) in m.arms[..n].iter().zip(l).rev() {
                            let b = &a.body;
                            r = parse_quote!(if #(vx_str_eq(__m, #l))||* { #b } else { #r });
                        }
                        let x = &m.expr;
                        *e = parse_quote!(match #x { __m => { #r } });
                    }
                }
            }
            Expr::Unsafe(u) => {
                self.l("unsafe block -> block");
                let b = &u.block;
                *e = parse_quote!(#b);
            }
            Expr::Binary(b) if matches!(b.op, syn::BinOp::BitOr(_)) && self.b.opt("boolor").is_some() => {
                self.l("bool | bool -> bool_or");
                let (x, y) = (&b.left, &b.right);
                *e = parse_quote!(bool_or(#x, #y));
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                for l in self.b.all("droplit") {
                    if let Some((a, f)) = l.split_once('|') {
                        if a.trim() == n {
                            s.fields = std::mem::take(&mut s.fields).into_iter().filter(|x| x.member.to_token_stream().to_string() != f.trim()).collect();
                            self.log.push(format!("field {f} dropped from {n} literals"));
                        }
                    }
                }
                for l in self.b.all("lit") {
                    if let Some((a, f)) = l.split_once('|') {
                        if a.trim() == n {
                            let (name, x) = f.split_once(':').unwrap();
                            let id = quote::format_ident!("{}", name.trim());
                            let x: Expr = parse_str(x.trim()).unwrap_or_else(|e| panic!("{l}: {e}"));
                            s.fields.push(parse_quote!(#id: #x));
                            self.log.push(format!("ghost field {id} in {n} literals"));
                        }
                    }
                }
            }
            _ => {}
        }
        if let Expr::Field(_) | Expr::Path(_) = e {
            for r in self.b.all("subst") {
                if let Some((a, b)) = r.split_once("->") {
                    if norm(&e.to_token_stream().to_string()) == norm(a) {
                        *e = parse_str(b.trim()).unwrap();
                        self.l(&format!("capture {r}"));
                        break;
                    }
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        for r in self.b.all("type") {
            if let Some((a, b)) = r.split_once("->") {
                if norm(&t.to_token_stream().to_string()) == norm(a) {
                    *t = parse_str(b.trim()).unwrap();
                    self.l(&format!("type {r}"));
                    break;
                }
            }
        }
    }
}

struct Marks<'a> {
    b: &'a Spec,
    nloop: usize,
    nret: usize,
    texts: Vec<String>,
    pend: Vec<(bool, usize)>, // (after?, index) anchors still to place
}
impl<'a> Marks<'a> {
    fn text(&mut self, s: &str) -> Stmt {
        let k = self.texts.len();
        self.texts.push(s.to_string());
        let k = proc_macro2::Literal::usize_unsuffixed(k);
        parse_quote!(__vx_text!(#k);)
    }
}
impl<'a> VisitMut for Marks<'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let txt = norm(&s.to_token_stream().to_string());
            if let Stmt::Expr(Expr::Loop(_) | Expr::While(_), _) = &s {
                if let Some(t) = self.b.loopbefore.get(&self.nloop) {
                    let t = self.text(t);
                    out.push(t);
                }
            }
            self.visit_stmt_mut(&mut s);
            let mut aft = vec![];
            let pend = std::mem::take(&mut self.pend);
            let mut exact_done = false;
            for (after, k) in pend {
                let (pat, body) = if after { &self.b.after[k] } else { &self.b.before[k] };
                // `=TEXT`: the statement is TEXT; each such anchor marks one statement, in order
                let hit = match pat.strip_prefix('=') {
                    Some(p) => !exact_done && txt == norm(p),
                    None => txt.contains(&norm(pat)),
                };
                if hit {
                    exact_done |= pat.starts_with('=');
                    let t = self.text(body);
                    if after {
                        aft.push(t)
                    } else {
                        out.push(t)
                    }
                } else {
                    self.pend.push((after, k));
                }
            }
            if !aft.is_empty() {
                if let Stmt::Expr(_, semi @ None) = &mut s {
                    *semi = Some(Default::default());
                }
            }
            out.push(s);
            out.extend(aft);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            let k = self.nret;
            self.nret += 1;
            if let Some(t) = self.b.returns.get(&k) {
                let t = self.text(t);
                let v: Expr = r.expr.take().map(|x| *x).unwrap_or(parse_quote!(()));
                *e = parse_quote!({ let __r = #v; #t return __r; });
                return;
            }
        }
        let n = match e {
            Expr::While(_) | Expr::Loop(_) => {
                self.nloop += 1;
                Some(self.nloop - 1)
            }
            _ => None,
        };
        visit_mut::visit_expr_mut(self, e);
        if let Some(n) = n {
            let body = match e {
                Expr::While(w) => &mut w.body,
                Expr::Loop(w) => &mut w.body,
                _ => unreachable!(),
            };
            if let Some(t) = self.b.loopend.get(&n) {
                let t = self.text(t);
                body.stmts.push(t);
            }
            let k = proc_macro2::Literal::usize_unsuffixed(n);
            body.stmts.insert(0, parse_quote!(__vx_loop!(#k);));
        }
    }
}

fn find_closure(b: &syn::Block, k: usize) -> Option<syn::ExprClosure> {
    struct F(Vec<syn::ExprClosure>);
    impl<'ast> syn::visit::Visit<'ast> for F {
        fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
            self.0.push(c.clone());
            syn::visit::visit_expr_closure(self, c);
        }
    }
    let mut f = F(vec![]);
    syn::visit::Visit::visit_block(&mut f, b);
    f.0.get(k).cloned()
}

fn closure_of(b: &syn::Block, m: &str) -> Option<syn::ExprClosure> {
    struct F<'a>(&'a str, Vec<syn::ExprClosure>);
    impl<'a, 'ast> syn::visit::Visit<'ast> for F<'a> {
        fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
            if c.method == self.0 {
                self.1.extend(c.args.iter().filter_map(|a| if let Expr::Closure(c) = a { Some(c.clone()) } else { None }));
            }
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut f = F(m, vec![]);
    syn::visit::Visit::visit_block(&mut f, b);
    if f.1.len() == 1 { f.1.pop() } else { None }
}

/// option raced
struct Raced {
    items: Vec<syn::ItemEnum>,
    n: usize,
}
impl VisitMut for Raced {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| match s {
            Stmt::Item(syn::Item::Enum(e)) => {
                self.items.push(e.clone());
                false
            }
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Await(a) = e else { return };
        if let Expr::Call(c) = &*a.base {
            if let (Expr::Path(f), Some(Expr::Tuple(t)), 1) = (&*c.func, c.args.first(), c.args.len()) {
                let bodies: Vec<_> = t.elems.iter().filter_map(|x| match x { Expr::Async(b) => Some(b.block.clone()), _ => None }).collect();
                if f.path.segments.last().is_some_and(|s| s.ident == "race") && bodies.len() == t.elems.len() && !bodies.is_empty() && !bodies.iter().any(|b| leaves(&parse_quote!(#b))) {
                    let n = bodies.len();
                    let mut r: Expr = { let b = &bodies[n - 1]; parse_quote!(#b) };
                    for (k, b) in bodies[..n - 1].iter().enumerate().rev() {
                        r = match r { r @ Expr::If(_) => parse_quote!(if __n == #k #b else #r), r => parse_quote!(if __n == #k #b else { #r }) };
                    }
                    *e = parse_quote!({ let __n = w.vx_race(#n); let __w = #r; w.vx_raced(); __w });
                    self.n += 1;
                    return;
                }
            }
        }
        let x = &a.base;
        *e = parse_quote!({ let __f = #x; w.vx_await(__f) });
    }
}

pub fn lower_fn(mut sig: syn::Signature, mut block: syn::Block, b: &Spec, log: &mut Vec<String>, lost: &mut Vec<String>) -> Result<String, String> {
    let mut cargs: Vec<(String, String)> = vec![];
    if let Some(k) = b.opt("closure") {
        let c = match k.parse() {
            Ok(n) => find_closure(&block, n),
            // the closure given to the method k
            Err(_) => closure_of(&block, k.trim()),
        }
        .ok_or("lost anchor: closure")?;
        for (i, p) in c.inputs.iter().enumerate() {
            cargs.push((format!("${i}"), p.to_token_stream().to_string()));
        }
        block = match *c.body {
            Expr::Block(x) => x.block,
            e => parse_quote!({ #e }),
        };
        log.push("closure body taken as a method of the iterator struct (defunctionalised)".into());
    }
    // the contract names the closure's parameters $0, $1, ..
    let named;
    let b = if cargs.is_empty() { b } else {
        let mut n = b.clone();
        for (x, y) in &cargs {
            for t in [&mut n.spec, &mut n.begin, &mut n.end] {
                *t = t.replace(x.as_str(), y);
            }
        }
        named = n;
        &named
    };
    if let Some((at, ret)) = b.opt("until").and_then(|u| u.split_once("->")) {
        // the function up to the statement that contains the text, and what it has made by then
        let k = block.stmts.iter().position(|s| norm(&s.to_token_stream().to_string()).contains(&norm(at))).ok_or("lost anchor: until")?;
        block.stmts.truncate(k);
        let e: Expr = parse_str(ret).map_err(|e| e.to_string())?;
        block.stmts.push(Stmt::Expr(e, None));
        log.push(format!("taken up to the statement that contains `{}`", at.trim()));
    }
    let mut hoisted = String::new();
    if b.opt("raced").is_some() {
        let mut r = Raced { items: vec![], n: 0 };
        r.visit_block_mut(&mut block);
        for i in &r.items {
            hoisted.push_str(&format!("{}\n", i.to_token_stream()));
        }
        if !r.items.is_empty() {
            log.push("an enum declared within the function is taken before it".into());
        }
        log.push("race((async { .. }, ..)).await -> the body of the branch that wins (contract of race); every branch is dropped then; x.await -> vx_await(x)".into());
    }
    for v in b.all("skiplet") {
        // a binding nothing else that is taken here uses
        let n = block.stmts.len();
        block.stmts.retain(|s| !matches!(s, Stmt::Local(l) if matches!(&l.pat, Pat::Ident(i) if i.ident == v.trim())));
        if block.stmts.len() < n {
            log.push(format!("let {} = ..; left out", v.trim()));
        }
    }
    if let Some(v) = b.opt("visit_parts") {
        // only the statement range named is taken
        let _ = v;
    }
    let mut l = L { b, log, err: None, n: 0, proj: vec![] };
    // the projection, get_mut, etc. must be seen before paths are changed
    let mut pre: Vec<Stmt> = vec![];
    let sigtext: Option<String> = b.opt("sig").map(|s| cargs.iter().fold(s.to_string(), |s, (a, b)| s.replace(a, b)));
    let mut inputs: Vec<syn::FnArg> = vec![];
    for (k, a) in sig.inputs.iter().enumerate() {
        match a {
            syn::FnArg::Receiver(r) => {
                let ty = norm(&r.ty.to_token_stream().to_string());
                let pin = ty.contains("Pin<");
                let m = b.opt("self");
                let arg: syn::FnArg = match m {
                    Some("mut") => parse_quote!(&mut self),
                    Some("ref") => parse_quote!(&self),
                    Some("val") => parse_quote!(self),
                    _ if pin => parse_quote!(&mut self),
                    _ => {
                        let mut r = r.clone();
                        r.attrs.clear();
                        syn::FnArg::Receiver(r)
                    }
                };
                if pin {
                    l.l("Pin<&mut Self> -> &mut Self");
                }
                if m == Some("mut") && ty == "&Self" {
                    l.l("&self over cells -> &mut self");
                }
                inputs.push(arg);
            }
            syn::FnArg::Typed(t) => {
                let mut t = t.clone();
                t.attrs.clear();
                l.visit_type_mut(&mut t.ty);
                match &*t.pat {
                    Pat::Ident(i) => {
                        if let Some(o) = b.all("param").find_map(|p| p.split_once(':').filter(|x| x.0.trim() == i.ident.to_string()).map(|x| x.1.trim().to_string())) {
                            l.l(&format!("parameter {}: {}", i.ident, o));
                            t.ty = parse_str(&o).map_err(|e| e.to_string())?;
                        }
                        if i.mutability.is_some() {
                            let id = &i.ident;
                            pre.push(parse_quote!(let mut #id = #id;));
                            let mut i = i.clone();
                            i.mutability = None;
                            t.pat = Box::new(Pat::Ident(i));
                        }
                        inputs.push(syn::FnArg::Typed(t));
                    }
                    p => {
                        let id = quote::format_ident!("p{}", k);
                        let p = p.clone();
                        let mut s = l.bind(&p, parse_quote!(#id));
                        pre.append(&mut s);
                        t.pat = Box::new(parse_quote!(#id));
                        inputs.push(syn::FnArg::Typed(t));
                    }
                }
            }
        }
    }
    if b.all("world").count() > 0 && !b.all("addparam").any(|p| p.trim().starts_with("w:")) {
        l.l("global effects passed as a parameter w: &mut World");
        inputs.push(parse_quote!(w: &mut World));
    }
    for p in b.all("addparam") {
        inputs.push(parse_str(p).map_err(|e| format!("{p}: {e}"))?);
    }
    if let syn::ReturnType::Type(_, t) = &mut sig.output {
        l.visit_type_mut(t);
    }
    let contract = b.opt("contract").is_some();
    if contract {
        block.stmts.clear();
        pre.clear();
    }
    let methods: Vec<(String, Vec<Expr>)> = b.all("guard").filter_map(|g| g.split_once(':')).map(|(m, a)| (m.trim().to_string(), a.split(',').map(|x| parse_str(x.trim()).unwrap()).collect())).collect();
    if !methods.is_empty() {
        let mut g = crate::guard::G { methods, n: 0, live: vec![], err: None, did: false };
        g.visit_block_mut(&mut block);
        if let Some(e) = g.err {
            return Err(e);
        }
        if g.did {
            l.l("the drop of a guard written out at the end of its scope");
        }
    }
    l.visit_block_mut(&mut block);
    if let Some(e) = l.err.take() {
        return Err(e);
    }
    if sigtext.is_some() {
        pre.clear();
    }
    pre.append(&mut block.stmts);
    block.stmts = pre;
    // ghost text
    let mut m = Marks { b, nloop: 0, nret: 0, texts: vec![], pend: vec![] };
    m.pend = (0..b.before.len()).map(|k| (false, k)).chain((0..b.after.len()).map(|k| (true, k))).collect();
    m.visit_block_mut(&mut block);
    for (after, k) in m.pend.iter().filter(|_| !contract) {
        lost.push(if *after { b.after[*k].0.clone() } else { b.before[*k].0.clone() });
    }
    if contract {
    } else if let Some(n) = b.opt("loops") {
        if n.parse::<usize>().ok() != Some(m.nloop) {
            lost.push(format!("{} loops, expected {n}", m.nloop));
        }
    } else if let Some(mx) = b.loops.keys().max() {
        if *mx + 1 != m.nloop {
            lost.push(format!("{} loops, expected {}", m.nloop, mx + 1));
        }
    } else if m.nloop > 0 {
        lost.push(format!("{} loops, expected none", m.nloop));
    }
    if let Some(mx) = b.returns.keys().max() {
        if *mx >= m.nret && !contract {
            lost.push(format!("{} returns, expected at least {}", m.nret, mx + 1));
        }
    }
    if !b.end.trim().is_empty() {
        let t = m.text(&b.end);
        match block.stmts.pop() {
            Some(Stmt::Expr(e, None)) => {
                block.stmts.push(parse_quote!(let __r = #e;));
                block.stmts.push(t);
                block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
            }
            Some(s) => {
                block.stmts.push(s);
                block.stmts.push(t);
            }
            None => block.stmts.push(t),
        }
    }
    if !b.begin.trim().is_empty() {
        let t = m.text(&b.begin);
        block.stmts.insert(0, t);
    }
    let mut loops = BTreeMap::new();
    for n in 0..m.nloop {
        loops.insert(n, (b.loops.get(&n).cloned().unwrap_or_default(), b.loopstart.get(&n).cloned().unwrap_or_default()));
    }
    let tx = Texts { loops, texts: m.texts };
    let mut out = hoisted;
    out.push_str(&b.opt("attr").map(|a| format!("{a}\n")).unwrap_or_default());
    if let Some(s) = sigtext {
        out.push_str(&s);
    } else {
        sig.inputs = inputs.into_iter().collect();
        sig.unsafety = None;
        sig.constness = None;
        if let Some(n) = b.opt("name") {
            sig.ident = quote::format_ident!("{}", n);
        }
        let (id, ins) = (&sig.ident, &sig.inputs);
        let gen = match b.opt("generics") {
            Some(g) => g.to_string(),
            None => sig.generics.params.to_token_stream().to_string(),
        };
        let gen = if gen.trim().is_empty() { gen } else if gen.trim().starts_with('<') { gen } else { format!("<{gen}>") };
        let ret = match (b.opt("ret"), &sig.output) {
            (Some(t), _) => t.to_string(),
            (None, syn::ReturnType::Default) => String::new(),
            (None, syn::ReturnType::Type(_, t)) => t.to_token_stream().to_string(),
        };
        let wh = match b.opt("where") {
            Some(w) => w.to_string(),
            None => sig.generics.where_clause.as_ref().map(|w| w.to_token_stream().to_string()).unwrap_or_default(),
        };
        out.push_str(&format!("{}fn {id}{gen}({})", b.opt("vis").map(|v| format!("{v} ")).unwrap_or_default(), quote!(#ins)));
        if !ret.is_empty() {
            out.push_str(&format!(" -> (r: {ret})"));
        }
        if !wh.is_empty() {
            out.push_str(&format!(" {wh}"));
        }
    }
    out.push('\n');
    out.push_str(&b.spec);
    if contract {
        return Ok(format!("#[verifier::external_body]\n{out}{{ unimplemented!() }}\n"));
    }
    out.push_str(&print::print(block.to_token_stream(), &tx));
    Ok(out)
}

fn fields(fs: &mut syn::Fields, b: &Spec, l: &mut L) {
    if let syn::Fields::Named(n) = fs {
        let mut keep = syn::punctuated::Punctuated::new();
        for mut f in std::mem::take(&mut n.named) {
            let id = f.ident.as_ref().unwrap().to_string();
            if b.all("dropfield").any(|d| d == id) {
                l.l(&format!("field {id} dropped"));
                continue;
            }
            f.attrs.clear();
            f.vis = syn::Visibility::Inherited;
            l.visit_type_mut(&mut f.ty);
            if let Some(o) = b.all("field").find_map(|p| p.split_once(':').filter(|x| x.0.trim() == id).map(|x| x.1.trim().to_string())) {
                l.l(&format!("field {id}: {o}"));
                f.ty = parse_str(&o).unwrap();
            }
            keep.push(f);
        }
        for a in b.all("addfield") {
            let (i, t) = a.split_once(':').unwrap();
            let i = quote::format_ident!("{}", i.trim());
            let t: syn::Type = parse_str(t.trim()).unwrap();
            keep.push(syn::Field { attrs: vec![], vis: syn::Visibility::Inherited, mutability: syn::FieldMutability::None, ident: Some(i), colon_token: Some(Default::default()), ty: t });
        }
        n.named = keep;
    } else if let syn::Fields::Unnamed(u) = fs {
        for f in u.unnamed.iter_mut() {
            f.attrs.clear();
            f.vis = syn::Visibility::Inherited;
            l.visit_type_mut(&mut f.ty);
        }
    }
}

fn pin_project_macro(items: &[&syn::Item], name: &str) -> Option<syn::ItemStruct> {
    // pin_project_lite::pin_project! { struct .. }
    items.iter().find_map(|i| match i {
        syn::Item::Macro(m) if m.mac.path.segments.last().unwrap().ident == "pin_project" => {
            let s: syn::ItemStruct = syn::parse2(m.mac.tokens.clone()).ok()?;
            (s.ident == name).then_some(s)
        }
        _ => None,
    })
}

/// `//@glue LABEL Struct` : the drop glue of a struct, that is its Drop (or PinnedDrop) impl and then its fields in the
/// order they are declared in
pub fn lower_glue(items: &[&syn::Item], b: &Spec, log: &mut Vec<String>) -> Option<String> {
    let tx = Texts { loops: BTreeMap::new(), texts: vec![] };
    let _ = &tx;
    let s = items
        .iter()
        .find_map(|i| match i {
            syn::Item::Struct(s) if s.ident == b.path && b.opt("pick").map_or(true, |p| crate::picked(s.to_token_stream(), p)) => Some(s.clone()),
            _ => None,
        })
        .or_else(|| pin_project_macro(items, &b.path))?;
    let has_drop = items.iter().any(|i| match i {
        syn::Item::Impl(im) => {
            matches!(&im.trait_, Some((_, t, _)) if matches!(t.segments.last().unwrap().ident.to_string().as_str(), "Drop" | "PinnedDrop"))
                && matches!(&*im.self_ty, syn::Type::Path(p) if p.path.segments.last().unwrap().ident == b.path)
        }
        _ => false,
    });
    if let Some(f) = b.opt("fields") {
        log.push(format!("drop glue: fields with no effect here left out, all but {f}"));
    }
    log.push("drop glue written out: the Drop impl, then the fields in declaration order".into());
    let args = b.opt("args").unwrap_or("dom, w");
    let params = b.opt("params").unwrap_or("dom: &DomContext, w: &mut World");
    let mut out = format!("fn {}(&mut self, {params})\n{}{{\n{}", b.opt("name").unwrap_or("vx_glue"), b.spec, b.begin);
    if has_drop {
        out.push_str(&format!("self.drop({});\n", b.opt("dropargs").unwrap_or("w, dom")));
    }
    for f in &s.fields {
        let id = f.ident.as_ref().unwrap().to_string();
        if b.opt("fields").map_or(true, |f| f.split(',').any(|x| x.trim() == id)) {
            let before = b.before.iter().find(|x| x.0 == id).map(|x| x.1.clone()).unwrap_or_default();
            let after = b.after.iter().find(|x| x.0 == id).map(|x| x.1.clone()).unwrap_or_default();
            out.push_str(&format!("{before}self.{id}.vx_gone({args});\n{after}"));
        }
    }
    out.push_str(&format!("{}}}\n", b.end));
    Some(out)
}

pub fn lower_type(items: &[&syn::Item], b: &Spec, log: &mut Vec<String>) -> Option<String> {
    let tx = Texts { loops: BTreeMap::new(), texts: vec![] };
    let mut l = L { b, log, err: None, n: 0, proj: vec![] };
    let mut attrs = String::new();
    for i in items {
        match i {
            syn::Item::Struct(s) if s.ident == b.path && b.opt("pick").map_or(true, |p| crate::picked(s.to_token_stream(), p)) => {
                let mut s = s.clone();
                fields(&mut s.fields, b, &mut l);
                return Some(finish(s, b, &mut attrs, &tx));
            }
            syn::Item::Enum(s) if s.ident == b.path => {
                let mut s = s.clone();
                s.attrs.clear();
                s.vis = syn::Visibility::Inherited;
                s.variants = s.variants.into_iter().filter(|v| !has_attr_cfg_test(&v.attrs)).collect();
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    let mut f = v.fields.clone();
                    fields(&mut f, b, &mut l);
                    v.fields = f;
                }
                if let Some(g) = b.opt("generics") {
                    s.generics = parse_str(g).unwrap();
                }
                return Some(format!("{}{}", b.opt("attr").map(|a| format!("{a}\n")).unwrap_or_default(), print::print(s.to_token_stream(), &tx)));
            }
            _ => {}
        }
    }
    if let Some(mut s) = pin_project_macro(items, &b.path) {
        l.l("pin_project! struct taken as the plain struct");
        fields(&mut s.fields, b, &mut l);
        return Some(finish(s, b, &mut attrs, &tx));
    }
    None
}

fn finish(mut s: syn::ItemStruct, b: &Spec, attrs: &mut String, tx: &Texts) -> String {
    s.attrs.clear();
    s.vis = syn::Visibility::Inherited;
    if let Some(g) = b.opt("generics") {
        s.generics = if g.is_empty() { Default::default() } else { parse_str(g).unwrap() };
    }
    if let Some(a) = b.opt("attr") {
        attrs.push_str(a);
        attrs.push('\n');
    }
    match b.opt("where") {
        Some("") => s.generics.where_clause = None,
        Some(w) => s.generics.where_clause = Some(parse_str(w).unwrap()),
        None => {}
    }
    format!("{attrs}{}", print::print(s.to_token_stream(), tx))
}

pub fn lower_const(items: &[&syn::Item], b: &Spec, log: &mut Vec<String>) -> Option<String> {
    let tx = Texts { loops: BTreeMap::new(), texts: vec![] };
    let mut l = L { b, log, err: None, n: 0, proj: vec![] };
    let segs: Vec<&str> = b.path.split("::").collect();
    for i in items {
        match i {
            syn::Item::Const(c) if segs.len() == 1 && c.ident == segs[0] && b.opt("pick").map_or(true, |p| crate::picked(c.to_token_stream(), p)) => {
                let mut c = c.clone();
                c.attrs.clear();
                c.vis = syn::Visibility::Inherited;
                l.visit_expr_mut(&mut c.expr);
                l.visit_type_mut(&mut c.ty);
                return Some(constp(c.ident.to_string(), c.ty.to_token_stream().to_string(), print::print(c.expr.to_token_stream(), &tx), b));
            }
            syn::Item::Impl(im) if segs.len() == 2 && super::last_seg(&im.self_ty) == segs[0] => {
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        if c.ident == segs[1] {
                            let mut c = c.clone();
                            l.visit_expr_mut(&mut c.expr);
                            l.visit_type_mut(&mut c.ty);
                            return Some(constp(c.ident.to_string(), c.ty.to_token_stream().to_string(), print::print(c.expr.to_token_stream(), &tx), b));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn constp(n: String, t: String, e: String, b: &Spec) -> String {
    let n = b.opt("name").map(|x| x.to_string()).unwrap_or(n);
    if let Some(f) = b.opt("asfn") {
        // a const over generic parameters becomes a function of them
        return format!("fn {n}{f} -> (r: {t})\n{}{{ {e} }}", b.spec);
    }
    if b.spec.trim().is_empty() {
        format!("const {n}: {t} = {e};")
    } else {
        format!("exec const {n}: {t}\n{}{{ {e} }}", b.spec)
    }
}
