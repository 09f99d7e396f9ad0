verus! {
// ======== floating point numbers, read as real numbers (trusted) ========
#[derive(Clone, Copy)]
pub struct F { pub v: Ghost<real> }
pub open spec fn mk(x: real) -> F { F { v: Ghost(x) } }
impl AddSpecImpl for F { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { mk(self.v@ + o.v@) } }
impl std::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> F { unimplemented!() } }
impl SubSpecImpl for F { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { mk(self.v@ - o.v@) } }
impl std::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> F { unimplemented!() } }
impl MulSpecImpl for F { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { mk(self.v@ * o.v@) } }
impl std::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> F { unimplemented!() } }
// dividing by zero gives some number
impl DivSpecImpl for F { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> F { mk(self.v@ / o.v@) } }
impl std::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> F { unimplemented!() } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self.v@ == o.v@ } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for F {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> { if self.v@ < o.v@ { Some(Ordering::Less) } else if self.v@ > o.v@ { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
}
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<Ordering> { unimplemented!() } }
#[verifier::external_body]
pub fn vx_lit(n: u64, d: u64) -> (r: F)
    requires d > 0,
    ensures r.v@ == (n as real) / (d as real),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_float(n: usize) -> (r: F)
    ensures r.v@ == n as real,
{ unimplemented!() }
pub trait VxNum: Sized {
    spec fn lower(self, o: Self) -> Self;
    spec fn upper(self, o: Self) -> Self;
    fn vx_min(self, o: Self) -> (r: Self)
        ensures r == self.lower(o);
    fn vx_max(self, o: Self) -> (r: Self)
        ensures r == self.upper(o);
}
impl VxNum for F {
    open spec fn lower(self, o: F) -> F { if self.v@ <= o.v@ { self } else { o } }
    open spec fn upper(self, o: F) -> F { if self.v@ >= o.v@ { self } else { o } }
    fn vx_min(self, o: F) -> F { if self <= o { self } else { o } }
    fn vx_max(self, o: F) -> F { if self >= o { self } else { o } }
}
impl VxNum for usize {
    open spec fn lower(self, o: usize) -> usize { if self <= o { self } else { o } }
    open spec fn upper(self, o: usize) -> usize { if self >= o { self } else { o } }
    fn vx_min(self, o: usize) -> usize { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> usize { if self >= o { self } else { o } }
}
/// the cast to usize: towards zero, and no further than what fits
pub open spec fn whole(x: real) -> int { if x <= 0real { 0 } else if x.floor() > usize::MAX { usize::MAX as int } else { x.floor() } }
/// the least whole number not below x
pub open spec fn up(x: real) -> int { if x == (x.floor() as real) { x.floor() } else { x.floor() + 1 } }
impl F {
    #[verifier::external_body]
    pub fn vx_usize(self) -> (r: usize)
        ensures r == whole(self.v@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ceil(self) -> (r: F)
        ensures r.v@ == up(self.v@) as real,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn floor(self) -> (r: F)
        ensures r.v@ == self.v@.floor() as real,
    { unimplemented!() }
}
// ======== the layout, as read before the list changes anything, and the block sizes set (trusted) ========
pub struct Rect { pub top: real, pub bottom: real, pub left: real, pub right: real }
pub struct Layout { pub sizes: Ghost<Map<int, real>>, pub boxes: Ghost<Map<int, Rect>> }
impl Layout {
    pub open spec fn size(&self, e: int) -> real { if self.sizes@.dom().contains(e) { self.sizes@[e] } else { 0real } }
}
#[verifier::external_body]
pub struct DomRect { e: u8 }
impl DomRect {
    pub uninterp spec fn view(&self) -> Rect;
    #[verifier::external_body]
    pub fn top(&self) -> (r: F)
        ensures r.v@ == self@.top,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bottom(&self) -> (r: F)
        ensures r.v@ == self@.bottom,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn left(&self) -> (r: F)
        ensures r.v@ == self@.left,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn right(&self) -> (r: F)
        ensures r.v@ == self@.right,
    { unimplemented!() }
}
pub struct Px { pub v: F }
pub fn vx_px(x: F) -> (r: Px)
    ensures r.v == x,
{ Px { v: x } }
#[verifier::external_body]
pub struct HtmlElement { e: u8 }
impl HtmlElement {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn get_bounding_client_rect(&self, v: &Layout) -> (r: DomRect)
        ensures r@ == v.boxes@[self.id()],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn style(&self) -> (r: Style)
        ensures r.of() == self.id(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Style { e: u8 }
impl Style {
    pub uninterp spec fn of(&self) -> int;
    /// the layout changes
    #[verifier::external_body]
    pub fn set_property(&self, name: &str, x: &Px, v: &mut Layout) -> (r: Result<(), ()>)
        ensures name@ == "block-size"@ ==> final(v).sizes@ == old(v).sizes@.insert(self.of(), x.v.v@),
    { unimplemented!() }
}
// ======== ranges of indices, and futures made for them ========
#[derive(Clone, Copy)]
pub struct VxSpan { pub start: usize, pub end: usize }
pub fn vx_span(a: usize, b: usize) -> (r: VxSpan)
    ensures r.start == a, r.end == b,
{ VxSpan { start: a, end: b } }
impl VxSpan {
    pub fn len(&self) -> (r: usize)
        ensures r == (if self.start < self.end { self.end - self.start } else { 0 }),
    { if self.start < self.end { self.end - self.start } else { 0 } }
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self.start >= self.end),
    { self.start >= self.end }
    pub fn contains(&self, i: &usize) -> (r: bool)
        ensures r == (self.start <= *i < self.end),
    { self.start <= *i && *i < self.end }
    pub fn clone(&self) -> (r: VxSpan)
        ensures r == *self,
    { *self }
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).start < old(self).end ==> r == Some(old(self).start) && final(self).start == old(self).start + 1 && final(self).end == old(self).end,
            old(self).start >= old(self).end ==> r is None && *final(self) == *old(self),
    { if self.start < self.end { let r = self.start; self.start = r + 1; Some(r) } else { None } }
    pub fn chain(self, b: VxSpan) -> (r: VxChain)
        ensures r.a == self, r.b == b,
    { VxChain { a: self, b } }
}
/// a..b, then c..d
pub struct VxChain { pub a: VxSpan, pub b: VxSpan }
impl VxChain {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).a.start < old(self).a.end ==> r == Some(old(self).a.start) && final(self).a.start == old(self).a.start + 1 && final(self).a.end == old(self).a.end && final(self).b == old(self).b,
            old(self).a.start >= old(self).a.end && old(self).b.start < old(self).b.end ==> r == Some(old(self).b.start) && final(self).b.start == old(self).b.start + 1 && final(self).b.end == old(self).b.end && final(self).a == old(self).a,
            old(self).a.start >= old(self).a.end && old(self).b.start >= old(self).b.end ==> r is None && *final(self) == *old(self),
    {
        if self.a.start < self.a.end { let r = self.a.start; self.a.start = r + 1; Some(r) }
        else if self.b.start < self.b.end { let r = self.b.start; self.b.start = r + 1; Some(r) }
        else { None }
    }
}
/// FnMut(usize) -> Fut
pub trait VxRenderAt<Fut>: Sized {
    spec fn calls(&self) -> Seq<(usize, Fut)>;
    fn call(&mut self, i: usize) -> (r: Fut)
        ensures final(self).calls() == old(self).calls().push((i, r));
}
pub struct VxSignal {}
impl VxSignal { pub fn clone(&self) -> VxSignal { VxSignal {} } }
pub fn vx_cell0<T>(x: T) -> (r: T)
    ensures r == x,
{ x }
/// the indices a..b, in order
pub open spec fn run(a: int, b: int) -> Seq<usize> { if a < b { Seq::new((b - a) as nat, |i: int| (a + i) as usize) } else { Seq::empty() } }
pub open spec fn rising(o: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> o[i] < o[j] }
proof fn run_has(a: int, b: int)
    requires 0 <= a, b <= usize::MAX,
    ensures forall|x: usize| #[trigger] run(a, b).contains(x) <==> a <= x < b, rising(run(a, b)), run(a, b).no_duplicates(),
{
    let s = run(a, b);
    assert forall|x: usize| #[trigger] s.contains(x) <==> a <= x < b by { if a <= x < b { assert(s[x - a] == x); } }
}
proof fn rising_run(o: Seq<usize>, a: int, b: int)
    requires rising(o), 0 <= a <= b <= usize::MAX, forall|x: usize| #[trigger] o.contains(x) <==> a <= x < b,
    ensures o == run(a, b),
{
    run_has(a, b);
    let s = run(a, b);
    assert(o.no_duplicates());
    assert forall|x: usize, y: usize| #[trigger] bef(o, x, y) implies bef(s, x, y) by {
        at_idx(o, x); at_idx(o, y);
        assert(x < y);
        assert(s[x - a] == x && s[y - a] == y);
        idx_at(s, x - a); idx_at(s, y - a);
    }
    same_rank(o, s);
}
proof fn rising_cut(o: Seq<usize>, k: usize)
    requires rising(o),
    ensures rising(cut(o, k)), forall|x: usize| #[trigger] cut(o, k).contains(x) <==> o.contains(x) && x != k,
{
    assert(o.no_duplicates());
    cut_rank(o, k);
    if o.contains(k) { let p = o.index_of(k); let r = cut(o, k); assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by { let (ii, jj) = (if i < p { i } else { i + 1 }, if j < p { j } else { j + 1 }); assert(r[i] == o[ii] && r[j] == o[jj]); } }
}
/// k is put before b, where what is below b is below k; or at the end, where everything is below k
proof fn rising_put(o: Seq<usize>, k: usize, b: Option<usize>)
    requires rising(o), !o.contains(k),
        there(o, b) is Some ==> k < b.unwrap() && forall|x: usize| #[trigger] o.contains(x) && x < b.unwrap() ==> x < k,
        there(o, b) is None ==> forall|x: usize| #[trigger] o.contains(x) ==> x < k,
    ensures rising(o_put(o, k, b)), forall|x: usize| #[trigger] o_put(o, k, b).contains(x) <==> o.contains(x) || x == k,
{
    assert(o.no_duplicates());
    let r = o_put(o, k, b);
    place_rank(o, k, there(o, b));
    let q = match there(o, b) { Some(x) => { o.index_of(x) } None => { o.len() as int } };
    assert(r =~= o.insert(q, k));
    if there(o, b) is Some { at_idx(o, b.unwrap()); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by {
        let f = |i: int| if i < q { i } else { i - 1 };
        if i != q { assert(r[i] == o[f(i)]); assert(o.contains(o[f(i)])); }
        if j != q { assert(r[j] == o[f(j)]); assert(o.contains(o[f(j)])); }
        if j == q { if there(o, b) is Some { assert(o[i] < o[q]); } }
        if i == q { if there(o, b) is Some { assert(q <= j - 1); if q < j - 1 { assert(o[q] < o[j - 1]); } } }
    }
}
// ======== the geometry ========
/// where things are: front spacer top and bottom, back spacer top, viewport
pub struct Geo { pub f0: real, pub f1: real, pub b0: real, pub r0: real, pub r1: real }
spec fn along(r: Rect, d: Direction) -> (real, real) { match d { Direction::Vertical => (r.top, r.bottom), Direction::Horizontal => (r.left, r.right) } }
impl Geo {
    pub open spec fn h(&self) -> real { self.r1 - self.r0 }
    /// the size of an item, as estimated when n are shown
    pub open spec fn avg(&self, n: int) -> real { if n > 0 { (self.b0 - self.f1) / (n as real) } else { self.h() / 4real } }
    /// a..b of n, as shown, reach past the viewport by a viewport and a quarter
    pub open spec fn reach(&self, a: int, b: int, n: int) -> bool {
        &&& self.f1 + self.h() * (125real / 100real) < self.r0 || a == 0
        &&& self.b0 - self.h() * (125real / 100real) > self.r1 || b == n
    }
    /// a..b of n are the items, of that size, that reach past the viewport by two viewports: no fewer
    pub open spec fn covers(&self, s: real, a: int, b: int, n: int) -> bool {
        &&& a == 0 || self.f0 + s * (a as real) <= self.r0 - self.h() * 2real
        &&& b == n || self.f0 + s * (b as real) >= self.r1 + self.h() * 2real
    }
    /// and no more
    pub open spec fn tight(&self, s: real, a: int, b: int) -> bool {
        a < b ==> {
            &&& self.f0 + s * ((a + 1) as real) > self.r0 - self.h() * 2real
            &&& self.f0 + s * ((b - 1) as real) < self.r1 + self.h() * 2real
        }
    }
}
proof fn floor_is(x: real)
    ensures x.floor() as real <= x, x < (x.floor() + 1) as real,
{}
proof fn over(s: real, d: real)
    requires s > 0real,
    ensures s * (d / s) == d,
{ assert(s * (d / s) == d) by (nonlinear_arith) requires s > 0real; }
proof fn times(s: real, x: real, y: real)
    requires s > 0real,
    ensures x <= y ==> s * x <= s * y, x < y ==> s * x < s * y,
{ assert(x <= y ==> s * x <= s * y) by (nonlinear_arith) requires s > 0real; assert(x < y ==> s * x < s * y) by (nonlinear_arith) requires s > 0real; }
proof fn whole_of(x: real)
    ensures 0 <= whole(x) <= usize::MAX, whole(x) != 0 ==> whole(x) as real <= x, whole(x) < usize::MAX ==> (whole(x) + 1) as real > x,
{
    floor_is(x);
    let f = x.floor();
    if x <= 0real {} else if f > usize::MAX {} else { assert(whole(x) == f); assert(f >= 0) by { if f < 0 { assert((f + 1) as real <= 0real); } } }
}
proof fn up_of(y: real)
    ensures up(y) as real >= y, ((up(y) - 1) as real) < y,
{ floor_is(y); }
proof fn whole_int(k: int)
    ensures whole(k as real) == (if k <= 0 { 0 } else if k > usize::MAX { usize::MAX as int } else { k }),
{ assert((k as real).floor() == k); }
proof fn whole_up(y: real)
    ensures 0 <= whole(up(y) as real) <= usize::MAX, whole(up(y) as real) < usize::MAX ==> whole(up(y) as real) as real >= y, whole(up(y) as real) > 0 ==> ((whole(up(y) as real) - 1) as real) < y,
{
    hide(whole); hide(up);
    up_of(y); whole_int(up(y));
}
/// a is computed from x, b from y
proof fn rounded(x: real, y: real, n: int, a: int, b: int)
    requires 0 <= n <= usize::MAX, b == (if whole(up(y) as real) <= n { whole(up(y) as real) } else { n }), a == (if whole(x) <= b { whole(x) } else { b }),
    ensures 0 <= a <= b <= n, a != 0 ==> a as real <= x, b != n ==> b as real >= y, a < b ==> (a + 1) as real > x && ((b - 1) as real) < y,
{
    hide(whole); hide(up);
    whole_of(x); whole_up(y);
    assert(a <= whole(x)); assert(b <= whole(up(y) as real));
    if a < b { assert(a == whole(x)); }
}
/// what is computed covers the viewport, and is tight
proof fn geometry(g: Geo, s: real, n: int, x: real, y: real, a: int, b: int)
    requires
        s > 0real, 0 <= n <= usize::MAX,
        x == (g.r0 - g.h() * 2real - g.f0) / s, y == (g.r1 + g.h() * 2real - g.f0) / s,
        b == (if whole(up(y) as real) <= n { whole(up(y) as real) } else { n }),
        a == (if whole(x) <= b { whole(x) } else { b }),
    ensures g.covers(s, a, b, n), g.tight(s, a, b), 0 <= a <= b <= n,
{
    rounded(x, y, n, a, b);
    let (p, q) = (g.r0 - g.h() * 2real - g.f0, g.r1 + g.h() * 2real - g.f0);
    over(s, p); over(s, q);
    times(s, a as real, x); times(s, y, b as real); times(s, x, (a + 1) as real); times(s, (b - 1) as real, y);
    let (sa, sb, sa1, sb1) = (s * (a as real), s * (b as real), s * ((a + 1) as real), s * ((b - 1) as real));
    assert(a != 0 ==> sa <= p);
    assert(b != n ==> sb >= q);
    assert(a < b ==> sa1 > p && sb1 < q);
}
//@default cell;; pin;; floats;; type=f64->F
#[derive(Clone, Copy)]
//@enum vl Direction
//@endfn
//@struct vl State
//@opt type=Range<usize>->VxSpan
//@endfn
#[verifier::reject_recursive_types(Fut)]
//@struct vl VirtualizedList
//@opt generics=<Fut, Renderer>;; type=DynamicList<'c,usize,Fut>->DynamicList<usize, Fut>;; type=RefCell<State<Renderer>>->State<Renderer>;; type=&'cHtmlElement->HtmlElement;; where=;; dropfield=signal;; dropfield=wake_closure
//@endfn
proof fn grown<K, Fu>(q1: Seq<(K, Fu)>, n: int, T: Seq<K>, P: Seq<K>, m1: Items<K, Fu>, k: K, q: Seq<(K, Fu)>, m: Items<K, Fu>)
    requires made(q1, n, T, P, m1), T.no_duplicates(), !T.contains(k), !P.contains(k), 0 <= n <= q1.len(), q.len() == q1.len() + 1, q == q1.push(q.last()), q.last().0 == k, m == m1.insert(k, m[k]), m[k].task.fut() == q.last().1,
    ensures made(q, n, T.push(k), P, m), q.take(n) == q1.take(n), T.push(k).no_duplicates(), forall|x: K| #[trigger] T.push(k).contains(x) <==> T.contains(x) || x == k,
{
    half_push(T, k);
    made_more(q1, n, T, P, m1, k, q.last().1, m[k]);
    asked_more(q1, n, q.last());
}
proof fn made_as<K, Fu>(calls: Seq<(K, Fu)>, n: int, T: Seq<K>, P: Seq<K>, m: Items<K, Fu>, N: Seq<K>)
    requires made(calls, n, T, P, m), forall|k: K| #[trigger] T.contains(k) <==> N.contains(k) && !P.contains(k),
    ensures made(calls, n, N, P, m),
{
    assert forall|k: K| #[trigger] asked(calls, n, k) <==> N.contains(k) && !P.contains(k) by { assert(T.contains(k) == (N.contains(k) && !P.contains(k))); }
}
proof fn made_none<K, Fu>(calls: Seq<(K, Fu)>, P: Seq<K>, m: Items<K, Fu>)
    ensures made(calls, calls.len() as int, Seq::<K>::empty(), P, m),
{ asked_none(calls); }
//@fn vl VirtualizedList::update_visible/top_bottom
//@opt type=web_sys::DomRect->DomRect
//@spec
    ensures (r.0.v@, r.1.v@) == along(rect@, direction),
//@endfn
impl<Fut, Renderer: VxRenderAt<Fut>> VirtualizedList<Fut, Renderer> {
    spec fn lo(&self) -> int { self.state.range.start as int }
    spec fn hi(&self) -> int { self.state.range.end as int }
    spec fn num(&self) -> int { self.state.num_items as int }
    /// the items shown are those of the range
    spec fn ranged(&self, w: World) -> bool { self.list.good(w) && self.lo() <= self.hi() && self.list.order(w) == run(self.lo(), self.hi()) && self.spacers.0.id() != self.spacers.1.id() }
    /// the spacers stand for the others, at s each
    spec fn spaced(&self, v: Layout, s: real) -> bool {
        &&& v.size(self.spacers.0.id()) == s * (self.lo() as real)
        &&& v.size(self.spacers.1.id()) == s * ((self.num() - self.hi()) as real)
    }
    spec fn good(&self, w: World, v: Layout) -> bool { self.ranged(w) && self.hi() <= self.num() && exists|s: real| #[trigger] self.spaced(v, s) }
    spec fn geo(&self, v: Layout) -> Geo {
        let (f, b, r) = (along(v.boxes@[self.spacers.0.id()], self.direction), along(v.boxes@[self.spacers.1.id()], self.direction), along(v.boxes@[self.root.id()], self.direction));
        Geo { f0: f.0, f1: f.1, b0: b.0, r0: r.0, r1: r.1 }
    }
    /// what an update does
    spec fn updated(&self, to: Self, w: World, w1: World, v: Layout, v1: Layout, resized: bool) -> bool {
        let g = self.geo(v);
        let s = g.avg(self.hi() - self.lo());
        let n = self.state.renderer.calls().len() as int;
        // nothing, if the items shown reach far enough
        ||| !resized && to == *self && w1 == w && v1 == v && g.reach(self.lo(), self.hi(), self.num())
        ||| {
            // or the items shown are those around the viewport
            &&& s > 0real ==> g.covers(s, to.lo(), to.hi(), to.num()) && g.tight(s, to.lo(), to.hi())
            &&& to.spaced(v1, s)
            // those that were shown keep their futures; the others got theirs from one call of the renderer each
            &&& same_tasks(self.list.items(), to.list.items())
            &&& n <= to.state.renderer.calls().len() && to.state.renderer.calls().take(n) == self.state.renderer.calls()
            &&& made(to.state.renderer.calls(), n, run(to.lo(), to.hi()), run(self.lo(), self.hi()), to.list.items())
        }
    }
    /// nothing changed but the range, the items and the renderer's calls
    spec fn rest(&self, o: Self) -> bool { self.spacers == o.spacers && self.direction == o.direction && self.root == o.root && self.num() == o.num() }
//@fn vl VirtualizedList::update_visible
//@opt self=mut;; addparam=w: &mut World;; addparam=v: &mut Layout;; fnfield=renderer;; passto=get_bounding_client_rect:v;; passto=set_property:v;; passto=list.insert:w;; passto=list.remove:w;; ranges;; opt=then_some,then;; px;; rename=min:vx_min,max:vx_max;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        old(self).ranged(*old(w)),
        !resized ==> old(self).good(*old(w), *old(v)),
    ensures
        final(self).good(*final(w), *final(v)), // [V01]
        final(self).rest(*old(self)), // [V01]
        old(self).updated(*final(self), *old(w), *final(w), *old(v), *final(v), resized), // [V01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(rising); hide(run); hide(made); hide(same_tasks); hide(DynamicList::good);
    let ghost g0 = *self; let ghost lo = self.lo(); let ghost hi = self.hi(); let ghost P = run(lo, hi); let ghost m0 = self.list.items(); let ghost c0 = self.state.renderer.calls(); let ghost n = c0.len() as int; let ghost num = self.num(); let ghost g = self.geo(*v); let ghost mut T: Seq<usize> = Seq::empty(); let ghost mut ns = 0int; let ghost mut ne = 0int; let ghost mut c = 0int;
    proof { self.list.listed(*w); run_has(lo, hi); assert(same_tasks(m0, m0)) by { reveal(same_tasks); } made_none(c0, P, m0); asked_none(c0); assert(T.no_duplicates() && forall|x: usize| !#[trigger] T.contains(x)) by { reveal(Seq::no_duplicates); reveal(Seq::contains); } }
//@loopbefore 0
    proof { ns = new_start as int; ne = new_end as int; c = if lo >= ne { lo } else { ne }; if avg_size.v@ > 0real { geometry(g, avg_size.v@, num, (g.r0 - g.h() * 2real - g.f0) / avg_size.v@, (g.r1 + g.h() * 2real - g.f0) / avg_size.v@, ns, ne); } }
//@loop 0
    invariant
        self.list.good(*w), rising(self.list.order(*w)),
        lo == state.range.start, hi == state.range.end, ns == new_start, ne == new_end, c == (if lo >= ne { lo } else { ne }), 0 <= lo <= hi, 0 <= ns <= ne,
        P == run(lo, hi), forall|x: usize| #[trigger] P.contains(x) <==> lo <= x < hi,
        __it1.a.end == (if hi <= ns { hi } else { ns }), __it1.b.end == hi, __it1.a.start >= lo, __it1.b.start >= c, lo < __it1.a.end ==> __it1.a.start <= __it1.a.end, __it1.a.end <= lo ==> __it1.a.start == lo,
        c < hi ==> __it1.b.start <= hi, c >= hi ==> __it1.b.start == c,
        forall|x: usize| #[trigger] self.list.order(*w).contains(x) <==> lo <= x < hi && !(lo <= x < __it1.a.start) && !(c <= x < __it1.b.start),
        same_tasks(m0, self.list.items()), forall|k: usize| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        state.renderer.calls() == c0,
        m0 == g0.list.items(),
    ensures
        __it1.a.start >= __it1.a.end, __it1.b.start >= __it1.b.end,
//@loopstart 0
    let ghost w1 = *w; let ghost l1 = self.list;
//@after self.list.remove(
    proof { rising_cut(l1.order(w1), to_remove); reveal(same_tasks); }
//@loopbefore 1
    proof { made_none(c0, P, self.list.items()); }
//@loop 1
    invariant
        self.list.good(*w), rising(self.list.order(*w)),
        lo == state.range.start, hi == state.range.end, ns == new_start, ne == new_end, 0 <= lo <= hi, 0 <= ns <= ne,
        P == run(lo, hi), forall|x: usize| #[trigger] P.contains(x) <==> lo <= x < hi,
        ns < __it2.end ==> remaining == Some(lo as usize) || remaining is None && lo >= ne,
        __it2.end == (if ne <= lo { ne } else { lo }), __it2.start >= ns, ns < __it2.end ==> __it2.start <= __it2.end, ns >= __it2.end ==> __it2.start == ns,
        forall|x: usize| #[trigger] self.list.order(*w).contains(x) <==> lo <= x < hi && ns <= x < ne || ns <= x < __it2.start,
        T.no_duplicates(), forall|x: usize| #[trigger] T.contains(x) <==> ns <= x < __it2.start,
        same_tasks(m0, self.list.items()), forall|k: usize| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        n == c0.len(), state.renderer.calls().len() >= n, state.renderer.calls().take(n) == c0,
        made(state.renderer.calls(), n, T, P, self.list.items()),
    ensures
        __it2.start >= __it2.end,
//@loopstart 1
    let ghost w1 = *w; let ghost l1 = self.list; let ghost q1 = state.renderer.calls(); let ghost o1 = l1.order(w1);
    proof { l1.listed(w1); }
//@after self.list.insert(to_add, state.renderer.call(to_add), remaining
    proof { rising_put(o1, to_add, remaining); grown(q1, n, T, P, l1.items(), to_add, state.renderer.calls(), self.list.items()); T = T.push(to_add); reveal(same_tasks); }
//@loop 2
    invariant
        self.list.good(*w), rising(self.list.order(*w)),
        lo == state.range.start, hi == state.range.end, ns == new_start, ne == new_end, 0 <= lo <= hi, 0 <= ns <= ne,
        P == run(lo, hi), forall|x: usize| #[trigger] P.contains(x) <==> lo <= x < hi,
        __it3.end == ne, __it3.start >= ns, __it3.start >= hi, (ns >= hi ==> ns < ne ==> __it3.start <= ne), (ns < hi ==> hi < ne ==> __it3.start <= ne), (ns >= hi ==> ns >= ne ==> __it3.start == ns), (ns < hi ==> hi >= ne ==> __it3.start == hi),
        forall|x: usize| #[trigger] self.list.order(*w).contains(x) <==> lo <= x < hi && ns <= x < ne || ns <= x < lo && x < ne || ns <= x && hi <= x < __it3.start,
        T.no_duplicates(), forall|x: usize| #[trigger] T.contains(x) <==> ns <= x < lo && x < ne || ns <= x && hi <= x < __it3.start,
        same_tasks(m0, self.list.items()), forall|k: usize| #[trigger] m0.dom().contains(k) <==> P.contains(k),
        n == c0.len(), state.renderer.calls().len() >= n, state.renderer.calls().take(n) == c0,
        made(state.renderer.calls(), n, T, P, self.list.items()),
    ensures
        __it3.start >= __it3.end,
//@loopstart 2
    let ghost w1 = *w; let ghost l1 = self.list; let ghost q1 = state.renderer.calls(); let ghost o1 = l1.order(w1);
    proof { l1.listed(w1); }
//@after self.list.insert(to_add, state.renderer.call(to_add), None
    proof { rising_put(o1, to_add, None); grown(q1, n, T, P, l1.items(), to_add, state.renderer.calls(), self.list.items()); T = T.push(to_add); reveal(same_tasks); }
//@end
    proof {
        rising_run(self.list.order(*w), new_start as int, new_end as int);
        run_has(new_start as int, new_end as int);
        made_as(self.state.renderer.calls(), n, T, P, self.list.items(), run(new_start as int, new_end as int));
        assert(self.spaced(*v, avg_size.v@));
    }
//@endfn
//@fn vl VirtualizedList::new
//@opt addparam=w: &mut World;; addparam=v: &Layout;; type=&'cHtmlElement->HtmlElement;; droplit=Self|signal;; droplit=Self|wake_closure;; call=RefCell::new->vx_cell0;; expr=DynamicList::new()->DynamicList::new(w);; expr=Rc::new(ReactiveCell::new(()))->VxSignal {};; ranges
//@spec
    requires old(w).tidy(), spacer_front.id() != spacer_back.id(), v.size(spacer_front.id()) == 0real, v.size(spacer_back.id()) == 0real,
    ensures
        r.good(*final(w), *v), // [V01]
        r.num() == 0 && r.lo() == r.hi(), // [V01]
        r.state.renderer == renderer, // [V01]
//@begin
    hide(DynamicList::good);
//@end
    proof { __r.list.listed(*w); assert(__r.list.order(*w) =~= run(0, 0)); assert(__r.spaced(*v, 0real)); }
//@endfn
//@fn vl VirtualizedList::set_direction
//@spec
    requires exists|w: World, v: Layout| old(self).good(w, v),
    ensures
        forall|w: World, v: Layout| old(self).good(w, v) ==> #[trigger] final(self).good(w, v), // [V01]
        final(self).direction == direction, // [V01]
//@begin
    hide(DynamicList::good);
//@end
    proof { assert forall|w: World, v: Layout| old(self).good(w, v) implies #[trigger] self.good(w, v) by { let s = choose|s: real| #[trigger] old(self).spaced(v, s); assert(self.spaced(v, s)); } }
//@endfn
//@fn vl VirtualizedList::set_num_items
//@opt self=mut;; addparam=w: &mut World;; addparam=v: &mut Layout;; passto=update_visible:w;; passto=update_visible:v
//@spec
    requires old(self).ranged(*old(w)),
    ensures
        final(self).good(*final(w), *final(v)), // [V01]
        final(self).num() == num, // [V01]
        exists|m: Self| #[trigger] m.updated(*final(self), *old(w), *final(w), *old(v), *final(v), true) && m.rest(*final(self)) && m.state.range == old(self).state.range && m.state.renderer == old(self).state.renderer && m.list == old(self).list, // [V01]
//@endfn
}
} // verus!
