//! M01: `css!` on generated style sheets, against a reading of them made while generating.
use crate::core::*;
use proc_macro2::{Literal, TokenStream, TokenTree};
use std::collections::{BTreeMap, BTreeSet};

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn all() -> Vec<(&'static str, Case)> {
    vec![("M01", m01)]
}
pub fn find(p: &str) -> Option<Case> {
    all().into_iter().find(|x| x.0 == p).map(|x| x.1)
}

/// A style sheet as text with the class names of its selectors told apart.
#[derive(Clone, Debug)]
enum Part {
    Text(String),
    Class(String),
}
struct Gen<'s> {
    s: &'s mut Src,
    parts: Vec<Part>,
    budget: usize,
}
const NAMES: &[&str] = &[
    "a", "b", "ab", "btn", "row-item", "row", "item", "-q", "--v", "media", "gr\u{f6}\u{df}e", "not", "style", "e_f", "x1", "A",
    "\u{65e5}\u{672c}", "a-b-c", "hover", "_u",
];
const SPACE: &[&str] = &["", " ", "\n", "/* .no { */", "\t\n  ", " /* 'x */ "];
const VALUES: &[&str] = &[
    "red", ".5em", "calc(.5em + 1.5px)", "url(img.a.png)", "\".b .c{}\"", "\"}\"", "'\\2022'", "\"\\\"\"", "`", "${x}", "$$ {}", "\"\\\\\"",
    "\\31 em", "/* .b{} */ 0", "[.5]", "{ .b: .c }", "a.b", "#fff.a", "\"${\"", "!important", "\u{1f600}.a", "'`'", "\\`", "(.a .b)",
];
const ATTRS: &[&str] = &["[a]", "[a=\".b\"]", "[a='x]' i]", "[a=b]", "[data-a=\"`\"]", "[a=\"\\2022\"]", "[ a ~= \"${\" ]"];
const PSEUDO: &[&str] = &[":hover", "::before", ":nth-child(2n+1)", ":lang(en)", ":nth-child(.5)", ":dir( ltr )"];
const FUNCS: &[&str] = &[":not(", ":is(", ":where(", ":has(", ":nth-child(2n + 1 of ", "::slotted(", ":NOT( ", ":host(["];
const GROUPS: &[&str] = &[
    "@media (min-width: 1.5em)", "@media screen and (a:b)", "@supports (display:grid)", "@supports selector(.a > .b)", "@layer a.b",
    "@layer", "@container card (width > 40.5px)", "@MEDIA print", "@Supports (a: '}')", "@media/* .x */print",
];
const OTHERS: &[&str] = &[
    "@font-face", "@keyframes a", "@page :first", "@property --x", "@counter-style a.b", "@-webkit-keyframes b", "@KEYFRAMES c",
];
const STATEMENTS: &[&str] = &["@import url(\"x.y\");", "@layer a.b, c;", "@namespace svg url(http://a.b/c.d);", "@import 'a.b' .c;"];

impl Gen<'_> {
    fn text(&mut self, t: &str) {
        if let Some(Part::Text(p)) = self.parts.last_mut() {
            p.push_str(t);
        } else {
            self.parts.push(Part::Text(t.into()));
        }
    }
    fn one(&mut self, of: &[&str]) {
        let i = self.s.pick(of.len());
        self.text(of[i]);
    }
    fn class(&mut self) {
        self.text(".");
        let n = if self.s.size == 0 { 3 } else { NAMES.len() };
        let i = self.s.pick(n);
        let mut name = NAMES[i].to_string();
        if self.s.size > 1 && self.s.rare(5) {
            name.push_str(&format!("z{}", self.s.pick(30)));
        }
        self.parts.push(Part::Class(name));
    }
    fn compound(&mut self, depth: usize) {
        let head = self.s.pick(4);
        match head {
            1 => self.text("div"),
            2 => self.text("*"),
            _ => {}
        }
        let n = self.s.pick(3) + (head == 0 || head == 3) as usize;
        for _ in 0..n {
            match self.s.pick(7) {
                0..=2 => self.class(),
                3 => self.one(ATTRS),
                4 => self.one(PSEUDO),
                5 if depth > 0 => {
                    let i = self.s.pick(FUNCS.len());
                    if FUNCS[i].ends_with('[') {
                        self.text(":host([a=\".b\"]");
                        self.compound(depth - 1);
                    } else {
                        self.text(FUNCS[i]);
                        self.selectors(depth - 1);
                        self.s.hit("class selectors in the arguments of a function");
                    }
                    self.text(")");
                }
                _ => self.text("#a"),
            }
            if self.s.rare(8) {
                self.text("/* .c */");
            }
        }
    }
    fn selectors(&mut self, depth: usize) {
        let n = 1 + self.s.pick(3);
        for i in 0..n {
            if i > 0 {
                let j = self.s.pick(6);
                self.text([" ", ",", " > ", "~", " + ", ", "][j]);
            }
            self.compound(depth);
        }
    }
    fn declarations(&mut self) {
        let n = self.s.pick(4);
        for i in 0..n {
            self.one(SPACE);
            self.text("color:");
            self.one(VALUES);
            if i + 1 < n || self.s.flag() {
                self.text(";");
            }
        }
        self.one(SPACE);
    }
    fn rules(&mut self, depth: usize) {
        let n = 1 + self.s.steps(1, if depth > 1 { 4 } else { 2 });
        for i in 0..n {
            if self.budget == 0 {
                return;
            }
            self.budget -= 1;
            if i > 0 {
                self.one(SPACE);
            }
            match self.s.pick(8) {
                0..=3 => {
                    self.selectors(2);
                    self.one(SPACE);
                    self.text("{");
                    self.declarations();
                    self.text("}");
                }
                4 | 5 if depth > 0 => {
                    self.one(GROUPS);
                    self.one(SPACE);
                    self.text("{");
                    self.one(SPACE);
                    self.rules(depth - 1);
                    self.text("}");
                    self.s.hit("rules in a conditional group or layer");
                }
                6 => {
                    self.one(OTHERS);
                    self.one(SPACE);
                    self.text("{");
                    if self.s.flag() {
                        self.text("from");
                        self.text("{");
                        self.declarations();
                        self.text("} 50.5% {}");
                    } else {
                        self.declarations();
                    }
                    self.text("}");
                    self.s.hit("at-rules without selectors");
                }
                _ => self.one(STATEMENTS),
            }
        }
    }
}

fn source(p: &[Part]) -> String {
    p.iter().map(|p| match p { Part::Text(t) => t.as_str(), Part::Class(c) => c.as_str() }).collect()
}

/// what the macro made of a style sheet: its constants, the name and the text of the style registered
fn expand(text: &str) -> Result<(Vec<(String, String)>, String, String), String> {
    let lit: TokenStream = TokenTree::from(Literal::string(text)).into();
    let out: TokenStream = crate::css(lit.into()).into();
    let file: syn::File = syn::parse2(out.clone()).map_err(|e| format!("the expansion does not parse: {e}"))?;
    let mut consts = vec![];
    for i in &file.items {
        if let syn::Item::Const(c) = i {
            ensure!(matches!(c.vis, syn::Visibility::Public(_)), "constant {} is not public", c.ident);
            match &*c.expr {
                syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => consts.push((c.ident.to_string(), l.value())),
                _ => return Err(format!("the constant {} is not a string", c.ident)),
            }
        }
    }
    let mut js = vec![];
    let mut idents = BTreeSet::new();
    scan(out, &mut js, &mut idents);
    ensure!(js.len() == 1, "{} inline_js attributes", js.len());
    let (name, css) = decode(&js[0])?;
    ensure!(idents.contains(&name), "{name} is exported by the script but not imported");
    Ok((consts, name, css))
}
fn scan(t: TokenStream, js: &mut Vec<String>, idents: &mut BTreeSet<String>) {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Ident(x) => {
                idents.insert(x.to_string());
                if x == "inline_js" {
                    if let Some(TokenTree::Literal(l)) = v.get(i + 2) {
                        if let Ok(l) = syn::parse_str::<syn::LitStr>(&l.to_string()) {
                            js.push(l.value());
                        }
                    }
                }
            }
            TokenTree::Group(g) => scan(g.stream(), js, idents),
            _ => {}
        }
    }
}
/// reads `export const NAME = LITERAL;` followed by what puts NAME into the document, as ECMAScript does
fn decode(js: &str) -> Result<(String, String), String> {
    let p = "export const ";
    let i = js.find(p).ok_or("the script exports nothing")?;
    ensure!(js[..i].trim().is_empty(), "the script has something before its export");
    let r = &js[i + p.len()..];
    let e = r.find(|c: char| !(c.is_alphanumeric() || c == '_' || c == '$')).ok_or("no name is exported")?;
    let name = r[..e].to_string();
    let r = r[e..].trim_start().strip_prefix('=').ok_or("no value is exported")?.trim_start();
    let mut it = r.chars().peekable();
    let q = it.next().ok_or("no value is exported")?;
    ensure!(matches!(q, '`' | '"' | '\''), "the value exported is no string literal");
    let mut out = String::new();
    let bad = |w: &str| format!("the script is no JavaScript: {w}");
    loop {
        let c = it.next().ok_or_else(|| bad("the literal does not end"))?;
        match c {
            c if c == q => break,
            '$' if q == '`' && it.peek() == Some(&'{') => return Err(bad("a substitution in the template literal")),
            '\n' | '\r' if q != '`' => return Err(bad("a line break in a string literal")),
            '\r' => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
                out.push('\n');
            }
            '\\' => match it.next().ok_or_else(|| bad("the literal does not end"))? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                'b' => out.push('\u{8}'),
                'f' => out.push('\u{c}'),
                'v' => out.push('\u{b}'),
                '\n' | '\u{2028}' | '\u{2029}' => {}
                '\r' => {
                    if it.peek() == Some(&'\n') {
                        it.next();
                    }
                }
                'x' => {
                    let h: String = it.by_ref().take(2).collect();
                    let n = u32::from_str_radix(&h, 16).map_err(|_| bad("a bad \\x escape"))?;
                    ensure!(h.len() == 2, "{}", bad("a bad \\x escape"));
                    out.push(char::from_u32(n).unwrap());
                }
                'u' => {
                    let h: String = if it.peek() == Some(&'{') {
                        it.next();
                        it.by_ref().take_while(|c| *c != '}').collect()
                    } else {
                        it.by_ref().take(4).collect()
                    };
                    let n = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or_else(|| bad("a bad \\u escape"))?;
                    out.push(n);
                }
                '0' if !matches!(it.peek(), Some('0'..='9')) => out.push('\0'),
                d @ '0'..='9' => return Err(bad(&format!("the escape \\{d} in the literal"))),
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
    let rest: String = it.collect();
    let r: String = rest.chars().filter(|c| !c.is_whitespace()).collect();
    ensure!(r.starts_with(';') || rest.starts_with('\n'), "something follows the literal: {rest}");
    ensure!(r.contains("document.head") && r.contains(&name), "the style is not put into the document: {rest}");
    Ok((name, out))
}

fn check(parts: &[Part]) -> Result<(BTreeMap<String, String>, String), String> {
    let text = source(parts);
    let (consts, name, css) = expand(&text)?;
    let mut names: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in &consts {
        ensure!(names.insert(k.clone(), v.clone()).is_none(), "two constants are called {k}");
    }
    let want: BTreeSet<String> =
        parts.iter().filter_map(|p| if let Part::Class(c) = p { Some(c.replace('-', "_")) } else { None }).collect();
    let have: BTreeSet<String> = names.keys().cloned().collect();
    ensure!(want == have, "the classes of the style sheet are {want:?}, the constants are {have:?}");
    let mut expected = String::new();
    let mut values: BTreeMap<String, String> = BTreeMap::new();
    for p in parts {
        match p {
            Part::Text(t) => expected.push_str(t),
            Part::Class(c) => {
                let v = &names[&c.replace('-', "_")];
                ensure!(v.starts_with(c.as_str()) && v.len() > c.len(), "the name given to .{c} is {v}: nothing is added to it");
                ensure!(v.chars().all(|c| c == '-' || c == '_' || c.is_alphanumeric()), "the name given to .{c} is {v}: no identifier");
                values.insert(c.clone(), v.clone());
                expected.push_str(v);
            }
        }
    }
    let distinct: BTreeSet<&String> = values.values().collect();
    ensure!(distinct.len() == values.len(), "two classes are given the same name: {values:?}");
    ensure!(css == expected, "the style registered is {css:?}, it should be {expected:?}");
    Ok((values, name))
}

pub fn m01(s: &mut Src) -> Result<(), String> {
    let budget = if s.size == 0 { 2 } else { 1 + 3 * s.size };
    let mut g = Gen { s, parts: vec![], budget };
    let depth = if g.s.size == 0 { 1 } else { 2 };
    g.one(SPACE);
    g.rules(depth);
    g.one(SPACE);
    // a style sheet may end within its last block
    if g.s.rare(6) {
        if let Some(Part::Text(t)) = g.parts.last_mut() {
            if t.ends_with('}') {
                t.pop();
                g.s.hit("a last block that is not closed");
            }
        }
    }
    let parts = g.parts;
    let text = source(&parts);
    s.t(format!("css!({text:?})"));
    let (v, n) = check(&parts)?;
    if !v.is_empty() {
        s.hit("a style sheet with classes");
    }
    if text.contains(|c| c == '`' || c == '\\' || c == '$') {
        s.hit("a style sheet with characters that mean something in JavaScript");
    }
    // another style sheet, as like this one as can be
    let mut other = parts.clone();
    let cut = match s.pick(3) {
        0 => "/**/",
        1 => " ",
        _ => "@layer z;",
    };
    other.insert(0, Part::Text(cut.into()));
    s.t(format!("css!({:?})", source(&other)));
    let (v2, n2) = check(&other)?;
    ensure!(n != n2, "two style sheets are both called {n}");
    for x in v.values() {
        ensure!(v2.values().all(|y| x != y), "two style sheets both have a class called {x}");
    }
    if v.len() > 1 {
        s.hit("several classes");
    }
    Ok(())
}
