//! `guard=METHOD:ARGS`: the value METHOD returns is an Option of (or a) guard whose drop matters. Its drop is written
//! out, where Rust 2021 puts it: temporaries at the end of their statement, variables at the end of their block, both
//! before a return; `GUARD.vx_gone(ARGS)`.
use proc_macro2::Ident;
use quote::{format_ident, ToTokens};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Pat, Stmt};

pub struct G {
    pub methods: Vec<(String, Vec<Expr>)>,
    pub n: usize,
    pub live: Vec<(Ident, Vec<Expr>)>,
    pub err: Option<String>,
    pub did: bool,
}

/// the first guard call among the temporaries of an expression
struct Find<'a> {
    ms: &'a [(String, Vec<Expr>)],
    n: usize,
}
impl<'ast> Visit<'ast> for Find<'_> {
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if self.ms.iter().any(|x| m.method == x.0) {
            self.n += 1;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_block(&mut self, _: &'ast syn::Block) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_arm(&mut self, _: &'ast syn::Arm) {}
}
struct Hoist<'a> {
    ms: &'a [(String, Vec<Expr>)],
    id: Ident,
    got: Option<(Expr, Vec<Expr>)>,
}
impl VisitMut for Hoist<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.got.is_some() {
            return;
        }
        if let Expr::MethodCall(m) = e {
            if let Some(x) = self.ms.iter().find(|x| m.method == x.0) {
                self.got = Some((e.clone(), x.1.clone()));
                let id = &self.id;
                *e = parse_quote!(#id);
                return;
            }
        }
        match e {
            Expr::Closure(_) | Expr::Block(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_block_mut(&mut self, _: &mut syn::Block) {}
    fn visit_arm_mut(&mut self, _: &mut syn::Arm) {}
}

impl G {
    fn count(&self, e: &Expr) -> usize {
        let mut f = Find { ms: &self.methods, n: 0 };
        f.visit_expr(e);
        f.n
    }
    fn exact(&self, e: &Expr) -> Option<Vec<Expr>> {
        match e {
            Expr::MethodCall(m) => self.methods.iter().find(|x| m.method == x.0).map(|x| x.1.clone()),
            Expr::Try(t) => self.exact(&t.expr),
            Expr::Paren(p) => self.exact(&p.expr),
            _ => None,
        }
    }
    fn bound(p: &Pat) -> Option<Ident> {
        match p {
            Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => Some(i.ident.clone()),
            Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => Self::bound(&t.elems[0]),
            Pat::Paren(p) => Self::bound(&p.pat),
            _ => None,
        }
    }
    fn hoist(&mut self, e: &mut Expr) -> Option<(Ident, Stmt, Vec<Expr>)> {
        match self.count(e) {
            0 => None,
            1 => {
                self.n += 1;
                let id = format_ident!("__g{}", self.n);
                let mut h = Hoist { ms: &self.methods, id: id.clone(), got: None };
                h.visit_expr_mut(e);
                match h.got {
                    Some((c, a)) => {
                        self.did = true;
                        Some((id.clone(), parse_quote!(let mut #id = #c;), a))
                    }
                    None => {
                        self.err = Some("a guard in a place its drop is not written out for".into());
                        None
                    }
                }
            }
            _ => {
                self.err = Some("two guards in one statement".into());
                None
            }
        }
    }
    fn gone(id: &Ident, args: &[Expr]) -> Stmt {
        parse_quote!(#id.vx_gone(#(#args),*);)
    }
    /// the guards live in this block only, and then its statements
    fn body(&mut self, b: &mut syn::Block, bound: Option<(Ident, Vec<Expr>)>) {
        let base = self.live.len();
        self.live.extend(bound);
        let mut out: Vec<Stmt> = vec![];
        let n = b.stmts.len();
        for (k, s) in std::mem::take(&mut b.stmts).into_iter().enumerate() {
            match s {
                Stmt::Local(mut l) => {
                    let mut after = None;
                    let mut hoisted = None;
                    if let Some(i) = &mut l.init {
                        match (self.exact(&i.expr), Self::bound(&l.pat)) {
                            (Some(a), Some(id)) => {
                                self.did = true;
                                after = Some((id, a));
                            }
                            _ => hoisted = self.hoist(&mut i.expr),
                        }
                        if let Some((id, s, a)) = &hoisted {
                            out.push(s.clone());
                            self.live.push((id.clone(), a.clone()));
                        }
                        self.visit_expr_mut(&mut i.expr);
                        if let Some((_, e)) = &mut i.diverge {
                            self.visit_expr_mut(e);
                        }
                    }
                    out.push(Stmt::Local(l));
                    if let Some((id, _, a)) = hoisted {
                        self.live.pop();
                        out.push(Self::gone(&id, &a));
                    }
                    self.live.extend(after);
                }
                Stmt::Expr(e, semi) => {
                    // drop(g)
                    if let Some(id) = dropped(&e) {
                        if let Some(p) = self.live.iter().rposition(|x| id == x.0.to_string()) {
                            if p < base {
                                self.err = Some("a guard dropped in an inner block".into());
                            }
                            let (id, a) = self.live.remove(p);
                            out.push(Self::gone(&id, &a));
                            continue;
                        }
                    }
                    let mut e = e;
                    let h = match &mut e {
                        Expr::If(x) => match &mut *x.cond {
                            Expr::Let(l) if self.exact(&l.expr).is_some() && Self::bound(&l.pat).is_some() => None,
                            Expr::Let(l) => self.hoist(&mut l.expr),
                            c => {
                                if self.count(c) > 0 {
                                    self.err = Some("a guard in a condition".into());
                                }
                                None
                            }
                        },
                        Expr::Match(x) if self.exact(&x.expr).is_some() && x.arms.iter().any(|a| Self::bound(&a.pat).is_some()) => None,
                        Expr::Match(x) => self.hoist(&mut x.expr),
                        Expr::While(x) => {
                            if self.count(&x.cond) > 0 {
                                self.err = Some("a guard in a loop condition".into());
                            }
                            None
                        }
                        Expr::Loop(_) | Expr::Block(_) | Expr::Unsafe(_) => None,
                        e => {
                            // a guard that is itself the value of the block is handed on
                            if semi.is_none() && k + 1 == n && self.exact(e).is_some() { None } else { self.hoist(e) }
                        }
                    };
                    if let Some((id, s, a)) = &h {
                        out.push(s.clone());
                        self.live.push((id.clone(), a.clone()));
                    }
                    self.visit_expr_mut(&mut e);
                    let diverges = matches!(e, Expr::Return(_)) || matches!(&e, Expr::Block(b) if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))));
                    if h.is_some() {
                        self.live.pop();
                    }
                    if let (Some((id, _, a)), false) = (&h, diverges) {
                        if semi.is_none() && k + 1 == n {
                            self.n += 1;
                            let v = format_ident!("__v{}", self.n);
                            out.push(parse_quote!(let #v = #e;));
                            out.push(Self::gone(id, a));
                            out.push(Stmt::Expr(parse_quote!(#v), None));
                        } else {
                            out.push(Stmt::Expr(e, semi));
                            out.push(Self::gone(id, a));
                        }
                    } else {
                        out.push(Stmt::Expr(e, semi));
                    }
                }
                s => out.push(s),
            }
        }
        let mine: Vec<_> = self.live.drain(base..).collect();
        if !mine.is_empty() {
            let diverges = match out.last() {
                Some(Stmt::Expr(Expr::Return(_), _)) => true,
                Some(Stmt::Expr(Expr::Block(b), _)) => matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
                _ => false,
            };
            if !diverges {
                let tail = match out.last() {
                    Some(Stmt::Expr(_, None)) => match out.pop() {
                        Some(Stmt::Expr(e, None)) => Some(e),
                        _ => None,
                    },
                    _ => None,
                };
                let keep = tail.as_ref().and_then(handed);
                let mut end = None;
                if let Some(e) = tail {
                    if keep.is_some() {
                        end = Some(e);
                    } else {
                        self.n += 1;
                        let v = format_ident!("__v{}", self.n);
                        out.push(parse_quote!(let #v = #e;));
                        end = Some(parse_quote!(#v));
                    }
                }
                for (id, a) in mine.iter().rev() {
                    if keep.as_deref() != Some(&id.to_string()) {
                        out.push(Self::gone(id, a));
                    }
                }
                if let Some(e) = end {
                    out.push(Stmt::Expr(e, None));
                }
            }
        }
        b.stmts = out;
    }
}
fn ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => ident(&p.expr),
        _ => None,
    }
}
/// `g` or `Some(g)` as a value
fn handed(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string() == "Some" => ident(&c.args[0]),
        e => ident(e),
    }
}
fn dropped(e: &Expr) -> Option<String> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => {
            let f: String = c.func.to_token_stream().to_string().split_whitespace().collect();
            if f == "drop" || f.ends_with("mem::drop") { ident(&c.args[0]) } else { None }
        }
        _ => None,
    }
}
impl VisitMut for G {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        self.body(b, None)
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::If(x) => {
                if let Expr::Let(l) = &mut *x.cond {
                    if let (Some(a), Some(id)) = (self.exact(&l.expr), Self::bound(&l.pat)) {
                        self.did = true;
                        self.body(&mut x.then_branch, Some((id, a)));
                        if let Some((_, e)) = &mut x.else_branch {
                            self.visit_expr_mut(e);
                        }
                        return;
                    }
                }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Match(x) => {
                if let Some(a) = self.exact(&x.expr) {
                    self.did = true;
                    for arm in x.arms.iter_mut() {
                        let b = Self::bound(&arm.pat).map(|i| (i, a.clone()));
                        let body = std::mem::replace(&mut *arm.body, parse_quote!(()));
                        let mut blk: syn::Block = match body {
                            Expr::Block(b) if b.label.is_none() => b.block,
                            e => parse_quote!({ #e }),
                        };
                        self.body(&mut blk, b);
                        *arm.body = Expr::Block(syn::ExprBlock { attrs: vec![], label: None, block: blk });
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e)
            }
            Expr::Return(r) => {
                if let Some(x) = &mut r.expr {
                    self.visit_expr_mut(x);
                }
                if !self.live.is_empty() {
                    let gone: Vec<Stmt> = self.live.iter().rev().map(|(i, a)| Self::gone(i, a)).collect();
                    *e = match &r.expr {
                        Some(x) => {
                            self.n += 1;
                            let v = format_ident!("__v{}", self.n);
                            parse_quote!({ let #v = #x; #(#gone)* return #v; })
                        }
                        None => parse_quote!({ #(#gone)* return; }),
                    };
                }
            }
            Expr::Break(_) | Expr::Continue(_) | Expr::Try(_) if !self.live.is_empty() => {
                self.err = Some("a jump out of a guard's scope".into());
            }
            Expr::Closure(_) => {}
            e => visit_mut::visit_expr_mut(self, e),
        }
    }
}
