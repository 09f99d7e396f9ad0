//@include prelude.inc
//@file css async_ui_web_macros/src/css.rs
verus! {
global size_of usize == 8;
// ---- a style sheet as the tokenizer and the rule list parser of cssparser read it (ghost) ----
/// tokens: where one starts, what it is, where it ends. Whitespace and comments are no matter here.
#[verifier::ext_equal]
pub enum Toks { Nil, Bad, Cons(usize, Kind, usize, Box<Toks>) }
#[verifier::ext_equal]
pub enum Kind { Delim(char), Ident(usize), Function(Box<Toks>), Other }
/// rules: what one is, where it ends
pub enum Rules { Nil, Cons(Rule, usize, Box<Rules>) }
pub enum Rule { Style(Toks, Toks), At(Seq<char>, Toks, Option<Box<Rules>>), Invalid }

/// the class names of a selector: the identifiers right after a dot, at any depth of functions
pub open spec fn classes_in(t: Toks, dot: bool) -> Seq<(usize, usize)>
    decreases t
{
    match t {
        Toks::Cons(at, k, _, tl) => match k {
            Kind::Delim(c) => classes_in(*tl, c == '.'),
            Kind::Ident(n) => (if dot { seq![(at, n)] } else { Seq::empty() }) + classes_in(*tl, false),
            Kind::Function(inner) => classes_in(*inner, false) + classes_in(*tl, false),
            Kind::Other => classes_in(*tl, false),
        },
        _ => Seq::empty(),
    }
}
pub uninterp spec fn lower(n: Seq<char>) -> Seq<char>;
/// the at-rules that hold style rules: their names are compared without regard to case
pub open spec fn grouping(n: Seq<char>) -> bool {
    ||| lower(n) == "media"@ ||| lower(n) == "supports"@ ||| lower(n) == "container"@ ||| lower(n) == "layer"@
}
pub open spec fn of_rule(r: Rule) -> Seq<(usize, usize)>
    decreases r, 1nat
{
    match r {
        Rule::Style(p, _) => classes_in(p, false),
        Rule::At(n, _, Some(b)) => if grouping(n) { of_rules(*b) } else { Seq::empty() },
        _ => Seq::empty(),
    }
}
pub open spec fn of_rules(r: Rules) -> Seq<(usize, usize)>
    decreases r, 0nat
{
    match r { Rules::Nil => Seq::empty(), Rules::Cons(h, _, tl) => of_rule(h) + of_rules(*tl) }
}
/// no token in it is an error
pub open spec fn good(t: Toks) -> bool
    decreases t
{
    match t {
        Toks::Nil => true,
        Toks::Bad => false,
        Toks::Cons(_, k, _, tl) => good(*tl) && match k { Kind::Function(i) => good(*i), _ => true },
    }
}
pub open spec fn good_rule(r: Rule) -> bool
    decreases r, 1nat
{
    match r { Rule::Style(p, _) => good(p), Rule::At(n, p, b) => good(p) && match b { Some(b) => grouping(n) ==> good_rules(*b), None => true }, Rule::Invalid => true }
}
pub open spec fn good_rules(r: Rules) -> bool
    decreases r, 0nat
{
    match r { Rules::Nil => true, Rules::Cons(h, _, tl) => good_rule(h) && good_rules(*tl) }
}

// ---- the parts of cssparser the code calls (trusted) ----
pub struct VName { pub n: Ghost<Seq<char>>, pub len: Ghost<usize> }
impl VName {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.len@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_ascii_lowercase(&self) -> (r: VLower)
        ensures r.n@ == lower(self.n@),
    { unimplemented!() }
}
pub struct VLower { pub n: Ghost<Seq<char>> }
impl VLower {
    pub fn as_str(&self) -> (r: &VLower)
        ensures r.n@ == self.n@,
    { self }
}
#[verifier::external_body]
pub fn vx_str_eq(a: &VLower, b: &str) -> (r: bool)
    ensures r == (a.n@ == b@),
{ unimplemented!() }
pub enum Token { Delim(char), Ident(VName), Function(VName), Other }
pub enum BasicParseErrorKind { EndOfInput, Unexpected }
pub struct BasicParseError { pub kind: BasicParseErrorKind }
pub struct SourcePosition { pub at: usize }
impl SourcePosition {
    pub fn byte_index(&self) -> (r: usize)
        ensures r == self.at,
    { self.at }
}
pub struct ParserState;
pub struct VText { pub b: Ghost<Seq<u8>> }
/// how cssparser reads a text
pub uninterp spec fn read(t: Seq<u8>) -> Rules;
pub struct ParserInput { pub t: Ghost<Seq<u8>> }
impl ParserInput {
    pub fn new(t: &VText) -> (r: ParserInput)
        ensures r.t@ == t.b@,
    { ParserInput { t: Ghost(t.b@) } }
}
pub struct Parser { pub toks: Ghost<Toks>, pub rules: Ghost<Rules>, pub inner: Ghost<Toks> }
impl Parser {
    #[verifier::external_body]
    pub fn new(i: &mut ParserInput) -> (r: Parser)
        ensures r.rules@ == read(old(i).t@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn position(&self) -> (r: SourcePosition)
        ensures self.toks@ is Cons ==> r.at == self.toks@->Cons_0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_including_whitespace<'a>(&mut self) -> (r: Result<&'a Token, BasicParseError>)
        ensures
            match old(self).toks@ {
                Toks::Nil => r is Err && r->Err_0.kind is EndOfInput && final(self).toks@ is Nil,
                Toks::Bad => r is Err && r->Err_0.kind is Unexpected && final(self).toks@ is Bad,
                Toks::Cons(_, k, _, tl) => final(self).toks@ == *tl && r is Ok && match k {
                    Kind::Delim(c) => *r->Ok_0 == Token::Delim(c),
                    Kind::Ident(n) => *r->Ok_0 is Ident && r->Ok_0->Ident_0.len@ == n,
                    Kind::Function(i) => *r->Ok_0 is Function && final(self).inner@ == *i,
                    Kind::Other => *r->Ok_0 is Other,
                },
            },
    { unimplemented!() }
    /// whitespace skipped: what was left out between is nothing drain_input asks about
    #[verifier::external_body]
    pub fn next<'a>(&mut self) -> (r: Result<&'a Token, BasicParseError>)
        ensures
            good(old(self).toks@) ==> good(final(self).toks@) && (r is Ok || r->Err_0.kind is EndOfInput),
            r is Err && r->Err_0.kind is EndOfInput ==> final(self).toks@ is Nil && final(self).rules@ is Nil,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_error(&self, kind: BasicParseErrorKind) -> BasicParseError
    { unimplemented!() }
    /// parse_nested_block: a parser of the block just opened, ...
    #[verifier::external_body]
    pub fn vx_enter(&mut self) -> (r: Parser)
        ensures r.toks@ == old(self).inner@, final(self).toks@ == old(self).toks@,
    { unimplemented!() }
    /// ... which must have come to its end
    #[verifier::external_body]
    pub fn vx_leave(&mut self, sub: Parser, r: Result<(), BasicParseError>) -> (o: Result<(), BasicParseError>)
        ensures final(self).toks@ == old(self).toks@, r is Ok && sub.toks@ is Nil ==> o is Ok,
    { unimplemented!() }
    /// the next rule of a rule list: what is before its block, and its block, each to be read by itself
    #[verifier::external_body]
    pub fn vx_rule(&mut self) -> (r: Option<VRule>)
        ensures
            match old(self).rules@ {
                Rules::Nil => r is None && final(self).rules@ is Nil,
                Rules::Cons(h, _, tl) => final(self).rules@ == *tl && match h {
                    Rule::Style(p, b) => r matches Some(VRule::Style(x, y)) && x.toks@ == p && y.toks@ == b,
                    Rule::At(n, p, b) => r matches Some(VRule::At(m, x, y)) && m.n@ == n && x.toks@ == p && match b { Some(b) => y matches Some(y) && y.rules@ == *b, None => y is None },
                    Rule::Invalid => r == Some(VRule::Invalid),
                },
            },
    { unimplemented!() }
}
pub enum VRule { Style(Parser, Parser), At(VName, Parser, Option<Parser>), Invalid }
struct RuleListParser<'t, 'd> { input: &'t mut Parser, parser: OurParser<'d> }
impl<'t, 'd> RuleListParser<'t, 'd> {
    fn new_for_stylesheet(input: &'t mut Parser, parser: OurParser<'d>) -> (r: Self)
        ensures *r.input == *old(input), *final(r.input) == *final(input), r.parser == parser,
    { RuleListParser { input, parser } }
    fn new_for_nested_rule(input: &'t mut Parser, parser: OurParser<'d>) -> (r: Self)
        ensures *r.input == *old(input), *final(r.input) == *final(input), r.parser == parser,
    { RuleListParser { input, parser } }
    fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
    /// what cssparser does with one rule: what comes before the block is given to parse_prelude, and, if that is
    /// well, the block to parse_block (this order of calls is trusted; what the calls do is their contracts)
    #[verifier::exec_allows_no_decreases_clause]
    fn next(&mut self) -> (r: Option<Result<(), BasicParseError>>)
        requires good_rules(old(self).input.rules@),
        ensures
            *final(final(self).parser.classes) == *final(old(self).parser.classes),
            r is None ==> old(self).input.rules@ is Nil && final(self).parser.classes@ == old(self).parser.classes@,
            r is Some ==> (old(self).input.rules@ matches Rules::Cons(h, _, tl) && final(self).input.rules@ == *tl && final(self).parser.classes@ == old(self).parser.classes@ + of_rule(h)),
    {
        proof {
            reveal_with_fuel(good_rule, 3); reveal_with_fuel(good_rules, 3); reveal_with_fuel(of_rule, 3); reveal_with_fuel(of_rules, 3);
            if let Rules::Cons(h, _, tl) = self.input.rules@ { assert(good_rule(h)); }
        }
        match self.input.vx_rule() {
            None => None,
            Some(VRule::Invalid) => Some(Err(BasicParseError { kind: BasicParseErrorKind::Unexpected })),
            Some(VRule::Style(p, b)) => {
                let mut p = p;
                let mut b = b;
                match self.parser.style_prelude(&mut p) {
                    Ok(x) => Some(self.parser.style_block(x, &ParserState, &mut b)),
                    Err(e) => Some(Err(e)),
                }
            }
            Some(VRule::At(n, p, b)) => {
                let mut p = p;
                match self.parser.at_prelude(n, &mut p) {
                    Ok(x) => match b {
                        Some(b) => {
                            let mut b = b;
                            Some(self.parser.at_block(x, &ParserState, &mut b))
                        }
                        None => Some(self.parser.at_without_block(x, &ParserState)),
                    },
                    Err(e) => Some(Err(e)),
                }
            }
        }
    }
}

//@struct css OurParser
//@endfn
//@default type=ParseError->BasicParseError;; type=CowRcStr->VName;; generics=
//@fn css drain_input
//@opt sig=fn drain_input(input: &mut Parser) -> (r: Result<(), BasicParseError>);; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures
        r is Ok ==> final(input).toks@ is Nil, // [M01]
        good(old(input).toks@) ==> r is Ok, // [M01]
//@loop 0
    invariant_except_break good(old(input).toks@) ==> good(input.toks@),
    ensures input.toks@ is Nil,
//@endfn
impl<'d> OurParser<'d> {
//@fn css OurParser::QualifiedRuleParser::parse_prelude
//@opt name=style_prelude;; self=mut;; sig=fn style_prelude(&mut self, input: &mut Parser) -> (r: Result<(), BasicParseError>);; attr=#[verifier::exec_allows_no_decreases_clause];; nested=parse_nested_block;; call=QualifiedRuleParser::parse_prelude->OurParser::style_prelude
//@spec
    ensures
        *final(final(self).classes) == *final(old(self).classes), // [M01]
        good(old(input).toks@) ==> r is Ok && final(input).toks@ is Nil && final(self).classes@ == old(self).classes@ + classes_in(old(input).toks@, false), // [M01]
//@loop 0
    invariant_except_break
        good(old(input).toks@) ==> good(input.toks@) && self.classes@ + classes_in(input.toks@, was_dot) == old(self).classes@ + classes_in(old(input).toks@, false),
    invariant
        *final(self.classes) == *final(old(self).classes),
    ensures
        good(old(input).toks@) ==> input.toks@ is Nil && self.classes@ == old(self).classes@ + classes_in(old(input).toks@, false),
//@endfn
//@fn css OurParser::QualifiedRuleParser::parse_block
//@opt name=style_block;; sig=fn style_block(&mut self, _prelude: (), _start: &ParserState, input: &mut Parser) -> (r: Result<(), BasicParseError>)
//@spec
    ensures
        *final(final(self).classes) == *final(old(self).classes), // [M01]
        final(self).classes@ == old(self).classes@, // [M01]
//@endfn
//@fn css OurParser::AtRuleParser::parse_prelude
//@opt name=at_prelude;; sig=fn at_prelude(&mut self, name: VName, input: &mut Parser) -> (r: Result<bool, BasicParseError>);; strmatch
//@spec
    ensures
        *final(final(self).classes) == *final(old(self).classes), // [M01]
        final(self).classes@ == old(self).classes@, // [M01]
        good(old(input).toks@) ==> r == Ok::<bool, BasicParseError>(grouping(name.n@)), // [M01]
//@endfn
//@fn css OurParser::AtRuleParser::rule_without_block
//@opt name=at_without_block;; sig=fn at_without_block(&mut self, _prelude: bool, _start: &ParserState) -> (r: Result<(), BasicParseError>)
//@spec
    ensures
        *final(final(self).classes) == *final(old(self).classes), // [M01]
        final(self).classes@ == old(self).classes@, // [M01]
//@endfn
//@fn css OurParser::AtRuleParser::parse_block
//@opt name=at_block;; sig=fn at_block(&mut self, prelude: bool, _start: &ParserState, input: &mut Parser) -> (r: Result<(), BasicParseError>);; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires prelude ==> good_rules(old(input).rules@),
    ensures
        *final(final(self).classes) == *final(old(self).classes), // [M01]
        final(self).classes@ == old(self).classes@ + (if prelude { of_rules(old(input).rules@) } else { Seq::empty() }), // [M01]
//@loop 0
    invariant_except_break
        good_rules(__it1.input.rules@),
        __it1.parser.classes@ + of_rules(__it1.input.rules@) == old(self).classes@ + of_rules(old(input).rules@),
    invariant
        *final(__it1.parser.classes) == *final(parser.parser.classes),
    ensures
        __it1.parser.classes@ == old(self).classes@ + of_rules(old(input).rules@),
//@endfn
}
//@fn css find_classes
//@opt sig=fn find_classes(input: &VText) -> (r: Vec<(usize, usize)>);; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires good_rules(read(input.b@)),
    ensures r@ == of_rules(read(input.b@)), // [M01]
//@begin
    let ghost text = input.b@;
//@loop 0
    invariant_except_break
        good_rules(__it1.input.rules@),
        __it1.parser.classes@ + of_rules(__it1.input.rules@) == of_rules(read(text)),
    invariant
        *final(__it1.parser.classes) == *final(parser.parser.classes),
    ensures
        __it1.parser.classes@ == of_rules(read(text)),
//@endfn
// ---- where the tokens lie in the text, and what the text becomes ----
pub uninterp spec fn boundary(t: Seq<u8>, i: int) -> bool;
/// the tokens lie in order between lo and hi, dots are dots, names have no escapes and follow their dots at once
pub open spec fn laid(t: Toks, x: Seq<u8>, lo: int, hi: int, dot: bool) -> bool
    decreases t
{
    match t {
        Toks::Nil => lo <= hi,
        Toks::Bad => false,
        Toks::Cons(at, k, end, tl) => {
            &&& lo <= at < end <= hi && boundary(x, at as int) && boundary(x, end as int)
            &&& laid(*tl, x, end as int, hi, k == Kind::Delim('.'))
            &&& match k {
                Kind::Delim(c) => c == '.' ==> x[at as int] == 46u8 && end == at + 1,
                Kind::Ident(n) => n == end - at && (dot ==> at == lo),
                Kind::Function(i) => laid(*i, x, at as int, end as int, false),
                Kind::Other => true,
            }
        }
    }
}
pub open spec fn laid_rule(r: Rule, x: Seq<u8>, lo: int, hi: int) -> bool
    decreases r, 1nat
{
    lo <= hi && match r {
        Rule::Style(p, _) => laid(p, x, lo, hi, false),
        Rule::At(n, _, Some(b)) => grouping(n) ==> laid_rules(*b, x, lo, hi),
        _ => true,
    }
}
pub open spec fn laid_rules(r: Rules, x: Seq<u8>, lo: int, hi: int) -> bool
    decreases r, 0nat
{
    match r {
        Rules::Nil => lo <= hi,
        Rules::Cons(h, end, tl) => laid_rule(h, x, lo, end as int) && laid_rules(*tl, x, end as int, hi),
    }
}
/// names at these places: in order, each right after a dot that comes after the one before
pub open spec fn ordered(c: Seq<(usize, usize)>, x: Seq<u8>, lo: int, hi: int) -> bool
    decreases c.len()
{
    if c.len() == 0 { lo <= hi } else {
        &&& lo <= c[0].0 - 1 && x[c[0].0 - 1] == 46u8 && c[0].1 >= 1
        &&& boundary(x, c[0].0 as int) && boundary(x, c[0].0 + c[0].1)
        &&& ordered(c.drop_first(), x, c[0].0 + c[0].1, hi)
    }
}
pub proof fn ordered_join(a: Seq<(usize, usize)>, b: Seq<(usize, usize)>, x: Seq<u8>, lo: int, mid: int, hi: int)
    requires ordered(a, x, lo, mid), ordered(b, x, mid, hi),
    ensures ordered(a + b, x, lo, hi), // [M01]
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); ordered_from(b, x, lo, mid, hi); } else {
        ordered_join(a.drop_first(), b, x, a[0].0 + a[0].1, mid, hi);
        assert((a + b).drop_first() =~= a.drop_first() + b);
    }
}
pub proof fn ordered_from(b: Seq<(usize, usize)>, x: Seq<u8>, lo: int, mid: int, hi: int)
    requires ordered(b, x, mid, hi), lo <= mid,
    ensures ordered(b, x, lo, hi), // [M01]
{}
pub proof fn ordered_ends(b: Seq<(usize, usize)>, x: Seq<u8>, lo: int, hi: int)
    requires ordered(b, x, lo, hi),
    ensures lo <= hi, // [M01]
    decreases b.len(),
{ if b.len() > 0 { ordered_ends(b.drop_first(), x, b[0].0 + b[0].1, hi); } }
pub proof fn toks_ordered(t: Toks, x: Seq<u8>, lo: int, hi: int, dot: bool)
    requires laid(t, x, lo, hi, dot), dot ==> x[lo - 1] == 46u8,
    ensures ordered(classes_in(t, dot), x, if dot { lo - 1 } else { lo }, hi), // [M01]
    decreases t,
{
    let from = if dot { lo - 1 } else { lo };
    match t {
        Toks::Cons(at, k, end, tl) => {
            let d = k == Kind::Delim('.');
            if d { assert(x[end - 1] == 46u8); }
            toks_ordered(*tl, x, end as int, hi, d);
            let rest = classes_in(*tl, d);
            match k {
                Kind::Ident(n) => if dot {
                    let c = seq![(at, n)];
                    assert((c + rest).drop_first() =~= rest);
                } else { assert(Seq::<(usize, usize)>::empty() + rest =~= rest); ordered_from(rest, x, from, end as int, hi); },
                Kind::Function(i) => {
                    toks_ordered(*i, x, at as int, end as int, false);
                    ordered_from(classes_in(*i, false), x, from, at as int, end as int);
                    ordered_join(classes_in(*i, false), rest, x, from, end as int, hi);
                },
                Kind::Delim(c) => {
                    assert(d == (c == '.'));
                    ordered_from(rest, x, from, if d { end - 1 } else { end as int }, hi);
                },
                Kind::Other => ordered_from(rest, x, from, end as int, hi),
            }
        },
        _ => {},
    }
}
pub proof fn rule_ordered(r: Rule, x: Seq<u8>, lo: int, hi: int)
    requires laid_rule(r, x, lo, hi),
    ensures ordered(of_rule(r), x, lo, hi), // [M01]
    decreases r, 1nat,
{
    match r {
        Rule::Style(p, _) => toks_ordered(p, x, lo, hi, false),
        Rule::At(n, _, Some(b)) => if grouping(n) { rules_ordered(*b, x, lo, hi) },
        _ => {},
    }
}
pub proof fn rules_ordered(r: Rules, x: Seq<u8>, lo: int, hi: int)
    requires laid_rules(r, x, lo, hi),
    ensures ordered(of_rules(r), x, lo, hi), // [M01]
    decreases r, 0nat,
{
    match r {
        Rules::Cons(h, end, tl) => {
            rule_ordered(h, x, lo, end as int);
            rules_ordered(*tl, x, end as int, hi);
            ordered_join(of_rule(h), of_rules(*tl), x, lo, end as int, hi);
        },
        _ => {},
    }
}
/// the text with a hyphen and the postfix after each name, from the byte `from` on: what the property asks for
pub open spec fn splice(x: Seq<u8>, c: Seq<(usize, usize)>, post: Seq<u8>, from: int) -> Seq<u8>
    decreases c.len()
{
    if c.len() == 0 { x.subrange(from, x.len() as int) } else {
        let end = c[0].0 + c[0].1;
        x.subrange(from, end) + seq![45u8] + post + splice(x, c.drop_first(), post, end)
    }
}
pub open spec fn name_at(x: Seq<u8>, p: (usize, usize)) -> Seq<u8> { x.subrange(p.0 as int, p.0 + p.1) }

// ---- texts, as the bytes they are (trusted) ----
pub uninterp spec fn postfix_of(x: Seq<u8>) -> Seq<u8>;
impl VText {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: VText)
        ensures r.b@.len() == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn capacity(&self) -> (r: usize)
        ensures r <= isize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.b@.len(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &VText)
        ensures final(self).b@ == old(self).b@ + s.b@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char)
        ensures (c as u32) < 128 ==> final(self).b@ == old(self).b@.push(c as u8),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_between(&self, a: usize, b: usize) -> (r: &VText)
        requires a <= b <= self.b@.len(), a == 0 || boundary(self.b@, a as int), b == self.b@.len() || boundary(self.b@, b as int),
        ensures r.b@ == self.b@.subrange(a as int, b as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_from(&self, a: usize) -> (r: &VText)
        requires a <= self.b@.len(), a == 0 || boundary(self.b@, a as int),
        ensures r.b@ == self.b@.subrange(a as int, self.b@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &Vec<u8>)
        ensures r@ == self.b@,
    { unimplemented!() }
}
/// the array of eight letters, and the text it is
pub struct VPost { pub b: Ghost<Seq<u8>> }
#[verifier::external_body]
pub fn generate_postfix(t: &VText) -> (r: VPost)
    ensures r.b@ == postfix_of(t.b@),
{ unimplemented!() }
#[verifier::external_body]
pub fn from_utf8(t: &VPost) -> (r: Option<&VText>)
    ensures r matches Some(r) && r.b@ == t.b@,
{ unimplemented!() }
pub struct VNames { pub s: Ghost<Set<Seq<u8>>> }
impl VNames {
    pub fn new() -> (r: VNames)
        ensures r.s@ == Set::<Seq<u8>>::empty(),
    { VNames { s: Ghost(Set::empty()) } }
    #[verifier::external_body]
    pub fn insert(&mut self, t: &VText)
        ensures final(self).s@ == old(self).s@.insert(t.b@),
    { unimplemented!() }
}
pub struct VPairs<'a> { pub v: &'a Vec<(usize, usize)>, pub i: usize }
impl<'a> VPairs<'a> {
    pub fn next(&mut self) -> (r: Option<(usize, usize)>)
        requires old(self).i <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v, final(self).i <= final(self).v@.len(),
            old(self).i < old(self).v@.len() ==> r == Some(old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.v.len() { let r = self.v[self.i]; self.i = self.i + 1; Some(r) } else { None } }
}
pub trait VxPairs { spec fn vx_pairs(&self) -> Seq<(usize, usize)>; fn vx_cloned(&self) -> (r: VPairs<'_>) ensures r.v@ == self.vx_pairs(), r.i == 0; }
impl VxPairs for Vec<(usize, usize)> {
    open spec fn vx_pairs(&self) -> Seq<(usize, usize)> { self@ }
    fn vx_cloned(&self) -> (r: VPairs<'_>) { VPairs { v: self, i: 0 } }
}
pub proof fn ordered_few(c: Seq<(usize, usize)>, x: Seq<u8>, lo: int, hi: int)
    requires ordered(c, x, lo, hi),
    ensures c.len() <= hi - lo, // [M01]
    decreases c.len(),
{ if c.len() > 0 { ordered_few(c.drop_first(), x, c[0].0 + c[0].1, hi); } }
// ---- the script's template literal ----
/// what `..` with this between the backticks is in JavaScript (of escapes only those of a character that needs one)
pub open spec fn js(s: Seq<u8>) -> Option<Seq<u8>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else if s[0] == 92u8 {
        if s.len() > 1 && (s[1] == 92u8 || s[1] == 96u8 || s[1] == 36u8) {
            match js(s.skip(2)) { Some(r) => Some(seq![s[1]] + r), None => None }
        } else { None }
    }
    else if s[0] == 96u8 || (s[0] == 36u8 && s.len() > 1 && s[1] == 123u8) { None }
    else { match js(s.skip(1)) { Some(r) => Some(seq![s[0]] + r), None => None } }
}
/// str::replace, for a pattern that is not empty
pub open spec fn rep(x: Seq<u8>, pat: Seq<u8>, to: Seq<u8>) -> Seq<u8>
    decreases x.len()
{
    if x.len() == 0 || pat.len() == 0 { x }
    else if pat.len() <= x.len() && x.take(pat.len() as int) == pat { to + rep(x.skip(pat.len() as int), pat, to) }
    else { seq![x[0]] + rep(x.skip(1), pat, to) }
}
/// backslashes and backticks escaped
pub open spec fn esc(x: Seq<u8>) -> Seq<u8>
    decreases x.len()
{
    if x.len() == 0 { x }
    else if x[0] == 92u8 || x[0] == 96u8 { seq![92u8, x[0]] + esc(x.skip(1)) }
    else { seq![x[0]] + esc(x.skip(1)) }
}
pub proof fn rep_one(x: Seq<u8>, y: Seq<u8>, p: u8, to: Seq<u8>)
    requires y.len() > 0,
    ensures rep(y, seq![p], to) == (if y[0] == p { to } else { seq![y[0]] }) + rep(y.skip(1), seq![p], to),
{
    if y[0] == p { assert(y.take(1) =~= seq![p]); } else { assert(y.take(1)[0] != p); }
}
pub proof fn esc_is(x: Seq<u8>)
    ensures rep(rep(x, seq![92u8], seq![92u8, 92u8]), seq![96u8], seq![92u8, 96u8]) == esc(x), // [M01]
    decreases x.len(),
{
    if x.len() > 0 {
        let (p, q) = (seq![92u8, 92u8], seq![92u8, 96u8]);
        let t = rep(x.skip(1), seq![92u8], p);
        esc_is(x.skip(1));
        rep_one(x, x, 92u8, p);
        let y = rep(x, seq![92u8], p);
        rep_one(x, y, 96u8, q);
        if x[0] == 92u8 {
            assert(y.skip(1) =~= seq![92u8] + t);
            rep_one(x, y.skip(1), 96u8, q);
            assert(y.skip(1).skip(1) =~= t);
        } else {
            assert(y.skip(1) =~= t);
        }
        assert(rep(y, seq![96u8], q) =~= esc(x));
    }
}
pub proof fn esc_head(x: Seq<u8>)
    ensures x.len() > 0 ==> esc(x).len() > 0 && (esc(x)[0] == x[0] || esc(x)[0] == 92u8), x.len() == 0 ==> esc(x).len() == 0,
{ }
pub proof fn script(x: Seq<u8>)
    ensures
        js(rep(esc(x), seq![36u8, 123u8], seq![92u8, 36u8, 123u8])) == Some(x), // [M01]
        ({ let d = rep(esc(x), seq![36u8, 123u8], seq![92u8, 36u8, 123u8]); d.len() > 0 && d[0] == 123u8 ==> x.len() > 0 && x[0] == 123u8 }),
    decreases x.len(),
{
    let (p, q) = (seq![36u8, 123u8], seq![92u8, 36u8, 123u8]);
    let e = esc(x);
    let d = rep(e, p, q);
    if x.len() > 0 {
        let x1 = x.skip(1);
        let d1 = rep(esc(x1), p, q);
        script(x1);
        if x[0] == 92u8 || x[0] == 96u8 {
            assert(e.take(2)[0] == 92u8 && p[0] == 36u8);
            assert(e.skip(1) =~= seq![x[0]] + esc(x1));
            assert(e.skip(1)[0] == x[0]);
            if e.skip(1).len() >= 2 { assert(e.skip(1).take(2)[0] == x[0]); }
            assert(e.skip(1).skip(1) =~= esc(x1));
            reveal_with_fuel(rep, 3);
            assert(rep(e.skip(1), p, q) =~= seq![x[0]] + d1);
            assert(d =~= seq![92u8] + rep(e.skip(1), p, q));
            assert(d =~= seq![92u8, x[0]] + d1);
            assert(d.skip(2) =~= d1);
            assert(seq![x[0]] + x1 =~= x);
        } else if x[0] == 36u8 && x.len() > 1 && x[1] == 123u8 {
            let x2 = x1.skip(1);
            let d2 = rep(esc(x2), p, q);
            assert(esc(x1) == seq![123u8] + esc(x2));
            assert(e =~= p + esc(x2));
            assert(e.take(2) =~= p);
            assert(e.skip(2) =~= esc(x2));
            assert(d =~= q + d2);
            script(x2);
            assert(d.skip(2) =~= seq![123u8] + d2);
            assert(d.skip(2).skip(1) =~= d2);
            assert(d.skip(2)[0] == 123u8);
            assert(js(d.skip(2)) == Some(seq![123u8] + x2));
            assert(seq![36u8] + (seq![123u8] + x2) =~= x);
        } else {
            esc_head(x1);
            assert(e.skip(1) =~= esc(x1));
            if e.len() >= 2 && e.take(2) == p { assert(e.take(2)[0] == 36u8 && e.take(2)[1] == 123u8); assert(e[1] == esc(x1)[0]); assert(false); }
            assert(d =~= seq![x[0]] + d1);
            assert(d.skip(1) =~= d1);
            if x[0] == 36u8 && d.len() > 1 && d[1] == 123u8 { assert(d1[0] == 123u8); assert(x1[0] == x[1]); assert(false); }
            assert(seq![x[0]] + x1 =~= x);
        }
    } else { assert(d =~= x); }
}
pub open spec fn ascii(s: Seq<char>) -> Seq<u8> { s.map_values(|c: char| c as u8) }
/// what replace looks for
pub trait VPat: Sized { spec fn vx_pat(&self) -> Seq<u8>; }
impl VPat for char { open spec fn vx_pat(&self) -> Seq<u8> { seq![*self as u8] } }
impl<'a> VPat for &'a str { open spec fn vx_pat(&self) -> Seq<u8> { ascii(self@) } }
impl VText {
    /// (of texts in ASCII)
    #[verifier::external_body]
    pub fn replace<P: VPat>(&self, p: P, to: &str) -> (r: VText)
        ensures r.b@ == rep(self.b@, p.vx_pat(), ascii(to@)),
    { unimplemented!() }
}
//@fn css generate
//@opt sig=fn generate(input: VText) -> (r: (VText, VNames));; until=let js_content->(output, names);; skiplet=classes_declaration;; skiplet=classes_value;; skiplet=inner_mod_name;; skiplet=style_var_name;; skiplet=dce_hack_fn_name;; subslice;; type=String->VText;; chain=iter.cloned->vx_cloned;; call=HashSet::new->VNames::new;; call=str::from_utf8->from_utf8;; call=String::with_capacity->VText::with_capacity
//@spec
    requires
        good_rules(read(input.b@)), laid_rules(read(input.b@), input.b@, 0, input.b@.len() as int),
        input.b@.len() < 0x0100_0000_0000_0000,
    ensures
        // what goes into the script, read as the template literal it is put in, is the text wanted
        js(r.0.b@) == Some(splice(input.b@, of_rules(read(input.b@)), postfix_of(input.b@), 0)), // [M01]
        forall|n: Seq<u8>| r.1.s@.contains(n) <==> exists|k: int| 0 <= k < of_rules(read(input.b@)).len() && #[trigger] name_at(input.b@, of_rules(read(input.b@))[k]) == n, // [M01]
//@begin
    let ghost x = input.b@;
    let ghost c = of_rules(read(x));
    let ghost post = postfix_of(x);
    proof { rules_ordered(read(x), x, 0, x.len() as int); ordered_few(c, x, 0, x.len() as int); }
//@before let output = output
    let ghost made = output.b@;
    proof {
        assert(made =~= splice(x, c, post, 0));
        esc_is(made);
        script(made);
        reveal_strlit("\\\\"); reveal_strlit("\\`"); reveal_strlit("${"); reveal_strlit("\\${");
        assert(ascii("\\\\"@) =~= seq![92u8, 92u8]);
        assert(ascii("\\`"@) =~= seq![92u8, 96u8]);
        assert(ascii("${"@) =~= seq![36u8, 123u8]);
        assert(ascii("\\${"@) =~= seq![92u8, 36u8, 123u8]);
    }
//@loopbefore 0
    proof { assert(c.skip(0) =~= c); assert(output.b@ + splice(x, c, post, 0) =~= splice(x, c, post, 0)); }
//@loop 0
    invariant
        x.len() < 0x0100_0000_0000_0000, input.b@ == x, classes@ == c, __it1.v@ == c, __it1.i <= c.len(), postfix.b@ == post,
        ordered(c.skip(__it1.i as int), x, last_end_idx as int, x.len() as int),
        last_end_idx <= x.len(), last_end_idx == 0 || boundary(x, last_end_idx as int),
        output.b@ + splice(x, c.skip(__it1.i as int), post, last_end_idx as int) == splice(x, c, post, 0),
        forall|n: Seq<u8>| names.s@.contains(n) <==> exists|k: int| 0 <= k < __it1.i && #[trigger] name_at(x, c[k]) == n,
    ensures
        __it1.i == c.len(),
    decreases c.len() - __it1.i,
//@loopstart 0
    let ghost i = __it1.i as int;
    let ghost o0 = output.b@;
    let ghost n0 = names.s@;
    let ghost l0 = last_end_idx as int;
    proof { if i < c.len() {
        let d = c.skip(i);
        assert(d[0] == c[i]);
        assert(d.drop_first() =~= c.skip(i + 1));
        ordered_ends(d.drop_first(), x, d[0].0 + d[0].1, x.len() as int);
        assert(c[i].0 + c[i].1 <= x.len());
    } }
//@before let end_idx
    proof { assert((start_idx, length) == c[i]); }
//@loopend 0
    proof {
        let d = c.skip(i);
        let end = d[0].0 + d[0].1;
        assert(output.b@ =~= o0 + (x.subrange(l0, end) + seq![45u8] + post));
        assert(output.b@ + splice(x, c.skip(i + 1), post, end) =~= o0 + splice(x, d, post, l0));
        assert forall|n: Seq<u8>| names.s@.contains(n) <==> exists|k: int| 0 <= k < i + 1 && #[trigger] name_at(x, c[k]) == n by {
            if names.s@.contains(n) {
                if n0.contains(n) { let k = choose|k: int| 0 <= k < i && #[trigger] name_at(x, c[k]) == n; assert(name_at(x, c[k]) == n); }
                else { assert(name_at(x, c[i]) == n); }
            }
        }
    }
//@endfn
} // verus!
fn main() {}
