//@file pos async_ui_web_core/src/position.rs
verus! {
// ======== comparisons, as transparent copies ========
#[derive(PartialEq, Eq, Structural, Copy, Clone)]
pub enum Ordering { Less, Equal, Greater }
pub trait VxCmp { fn vx_cmp(&self, o: &Self) -> Ordering; }
impl VxCmp for u32 {
    fn vx_cmp(&self, o: &u32) -> (r: Ordering)
        ensures r == if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater },
    { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
}
impl VxCmp for usize {
    fn vx_cmp(&self, o: &usize) -> (r: Ordering)
        ensures r == if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater },
    { if *self < *o { Ordering::Less } else if *self == *o { Ordering::Equal } else { Ordering::Greater } }
}
// ======== slice iterators forwards and backwards and two at a time, written out ========
pub struct SIter<'a> { pub v: &'a [u32], pub i: usize }
pub struct RIter<'a> { pub v: &'a [u32], pub e: usize }
pub struct ZIter<A, B> { pub a: A, pub b: B }
pub fn vx_slice_iter<'a>(v: &'a [u32]) -> (r: SIter<'a>)
    ensures r.v == v, r.i == 0,
{ SIter { v, i: 0 } }
pub trait VxStep<'a>: Sized {
    spec fn left(&self) -> Seq<u32>;
    fn step(&mut self) -> (r: Option<&'a u32>)
        ensures
            old(self).left().len() > 0 ==> r.is_some() && *r.unwrap() == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
            old(self).left().len() == 0 ==> r.is_none() && final(self).left() == old(self).left();
}
impl<'a> VxStep<'a> for SIter<'a> {
    open spec fn left(&self) -> Seq<u32> { if self.i <= self.v@.len() { self.v@.skip(self.i as int) } else { Seq::empty() } }
    fn step(&mut self) -> (r: Option<&'a u32>) {
        if self.i < self.v.len() { let r = &self.v[self.i]; self.i = self.i + 1; proof { assert(self.left() =~= old(self).left().skip(1)); } Some(r) } else { None }
    }
}
impl<'a> VxStep<'a> for RIter<'a> {
    open spec fn left(&self) -> Seq<u32> { if self.e <= self.v@.len() { self.v@.take(self.e as int).reverse() } else { Seq::empty() } }
    fn step(&mut self) -> (r: Option<&'a u32>) {
        if self.e > 0 && self.e <= self.v.len() { let r = &self.v[self.e - 1]; self.e = self.e - 1; proof { assert(self.left() =~= old(self).left().skip(1)); } Some(r) } else { None }
    }
}
impl<'a> SIter<'a> {
    /// Iterator::rev
    pub fn rev(self) -> (r: RIter<'a>)
        requires self.i == 0,
        ensures r.v == self.v, r.e == self.v@.len(),
    { RIter { v: self.v, e: self.v.len() } }
    pub fn zip<B: VxStep<'a>>(self, b: B) -> (r: ZIter<Self, B>)
        ensures r.a == self, r.b == b,
    { ZIter { a: self, b } }
}
impl<'a> RIter<'a> {
    pub fn zip<B: VxStep<'a>>(self, b: B) -> (r: ZIter<Self, B>)
        ensures r.a == self, r.b == b,
    { ZIter { a: self, b } }
}
impl<'a, A: VxStep<'a>, B: VxStep<'a>> ZIter<A, B> {
    pub fn next(&mut self) -> (r: Option<(&'a u32, &'a u32)>)
        ensures
            old(self).a.left().len() > 0 && old(self).b.left().len() > 0 ==> {
                &&& r.is_some() && *r.unwrap().0 == old(self).a.left()[0] && *r.unwrap().1 == old(self).b.left()[0]
                &&& final(self).a.left() == old(self).a.left().skip(1) && final(self).b.left() == old(self).b.left().skip(1)
            },
            old(self).a.left().len() == 0 || old(self).b.left().len() == 0 ==> r.is_none(),
    {
        match self.a.step() { None => None, Some(x) => match self.b.step() { None => None, Some(y) => Some((x, y)) } }
    }
}
} // verus!
verus! {
// ======== the order of positions (their last segment is the most significant) ========
pub open spec fn plt(a: Seq<u32>, b: Seq<u32>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a.last() != b.last() { a.last() < b.last() } else { plt(a.drop_last(), b.drop_last()) }
}
pub open spec fn pcmp(a: Seq<u32>, b: Seq<u32>) -> Ordering {
    if plt(a, b) { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
/// k is p or a position below it
pub open spec fn extends(k: Seq<u32>, p: Seq<u32>) -> bool { k.len() >= p.len() && k.skip(k.len() - p.len()) == p }
/// p with its least significant segment one higher
pub open spec fn bumped(p: Seq<u32>) -> Seq<u32> { p.update(0, (p[0] + 1) as u32) }

pub proof fn plt_irrefl(a: Seq<u32>)
    ensures !plt(a, a),
    decreases a.len(),
{ if a.len() > 0 { plt_irrefl(a.drop_last()); } }
pub proof fn plt_trans(a: Seq<u32>, b: Seq<u32>, c: Seq<u32>)
    requires plt(a, b), plt(b, c),
    ensures plt(a, c),
    decreases b.len(),
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a.last() == b.last() && b.last() == c.last() { plt_trans(a.drop_last(), b.drop_last(), c.drop_last()); } }
pub proof fn plt_total(a: Seq<u32>, b: Seq<u32>)
    ensures a != b ==> plt(a, b) || plt(b, a), a == b ==> !plt(a, b) && !plt(b, a), !(plt(a, b) && plt(b, a)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && a.last() == b.last() {
        plt_total(a.drop_last(), b.drop_last());
        if a.drop_last() == b.drop_last() { assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last())); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
/// the positions from p to its next sibling are p and those below it
pub proof fn sibling_range(k: Seq<u32>, p: Seq<u32>)
    requires p.len() > 0, p[0] < u32::MAX,
    ensures extends(k, p) <==> (!plt(k, p) && plt(k, bumped(p))),
    decreases p.len(),
{
    let n = bumped(p);
    if k.len() == 0 { assert(plt(k, p)); }
    else if p.len() == 1 {
        assert(k.drop_last().len() >= 0);
        assert(!plt(k.drop_last(), p.drop_last()));
        assert(!plt(k.drop_last(), n.drop_last()));
        assert(p.last() == p[0] && n.last() == p[0] + 1);
        let t = k.skip(k.len() - 1);
        assert(t.len() == 1 && t[0] == k.last());
        if k.last() == p.last() { assert(t =~= p); }
    } else {
        let (k1, p1) = (k.drop_last(), p.drop_last());
        sibling_range(k1, p1);
        assert(bumped(p1) =~= n.drop_last());
        assert(n.last() == p.last());
        if k.len() >= p.len() {
            let t = k.skip(k.len() - p.len());
            assert(t.last() == k.last());
            assert(t.drop_last() =~= k1.skip(k1.len() - p1.len()));
            if extends(k1, p1) && k.last() == p.last() { assert(t =~= p1.push(p.last())); assert(t =~= p); }
        }
    }
}
pub proof fn extends_refl(p: Seq<u32>)
    ensures extends(p, p), extends(p, Seq::empty()),
{ assert(p.skip(0) =~= p); assert(p.skip(p.len() as int) =~= Seq::<u32>::empty()); }
pub proof fn extends_trans(k: Seq<u32>, p: Seq<u32>, q: Seq<u32>)
    requires extends(k, p), extends(p, q),
    ensures extends(k, q),
{ assert(k.skip(k.len() - q.len()) =~= p.skip(p.len() - q.len())); }
/// everything below an earlier child of a combinator comes before everything below a later one
pub proof fn children_in_order(a: Seq<u32>, b: Seq<u32>, p: Seq<u32>, i: u32, j: u32)
    requires i < j, extends(a, seq![i] + p), extends(b, seq![j] + p),
    ensures plt(a, b),
    decreases p.len(),
{
    assert(a.last() == (seq![i] + p).last()) by { assert(a.skip(a.len() - p.len() - 1).last() == a.last()); }
    assert(b.last() == (seq![j] + p).last()) by { assert(b.skip(b.len() - p.len() - 1).last() == b.last()); }
    if p.len() > 0 {
        assert((seq![i] + p).drop_last() =~= seq![i] + p.drop_last());
        assert((seq![j] + p).drop_last() =~= seq![j] + p.drop_last());
        assert(a.drop_last().skip(a.len() - p.len() - 1) =~= a.skip(a.len() - p.len() - 1).drop_last());
        assert(b.drop_last().skip(b.len() - p.len() - 1) =~= b.skip(b.len() - p.len() - 1).drop_last());
        children_in_order(a.drop_last(), b.drop_last(), p.drop_last(), i, j);
    }
}
} // verus!
verus! {
pub fn vx_clone_u32s(v: &Vec<u32>) -> (r: Vec<u32>)
    ensures r@ == v@,
{
    let mut r: Vec<u32> = Vec::new();
    let n = v.len();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == v@.len(), r@ =~= v@.take(i as int),
        decreases n - i,
    { r.push(v[i]); i = i + 1; }
    r
}
//@struct pos ChildPosition
//@opt type=SmallVec<[PositionSegment;4]>->Vec<u32>
//@endfn
impl ChildPosition {
    pub closed spec fn segs(&self) -> Seq<u32> { self.0@ }
}
//@fn pos compare_slice_reversed
//@opt generics=;; type=&[C]->&[u32];; expr=s1.iter()->vx_slice_iter(s1);; expr=s2.iter()->vx_slice_iter(s2);; rename=cmp:vx_cmp
//@spec
    ensures r == pcmp(s1@, s2@), // [D01,D02]
//@begin
    let ghost mut a = s1@;
    let ghost mut b = s2@;
    proof { assert(s1@.take(s1@.len() as int) =~= s1@); assert(s2@.take(s2@.len() as int) =~= s2@); }
//@loop 0
    invariant_except_break
        __it1.a.left() == a.reverse(), __it1.b.left() == b.reverse(),
    invariant
        a.len() <= s1@.len(), b.len() <= s2@.len(), s1@.len() - a.len() == s2@.len() - b.len(),
        plt(s1@, s2@) == plt(a, b), s1@ == s2@ <==> a == b,
    ensures a.len() == 0 || b.len() == 0,
    decreases a.len(),
//@loopstart 0
    proof {
        if a.len() > 0 && b.len() > 0 {
            if a.drop_last() == b.drop_last() && a.last() == b.last() { assert(a =~= a.drop_last().push(a.last())); assert(b =~= b.drop_last().push(b.last())); }
        }
    }
//@loopend 0
    proof {
        a = a.drop_last(); b = b.drop_last();
        assert(__it1.a.left() =~= a.reverse());
        assert(__it1.b.left() =~= b.reverse());
    }
//@end
    proof { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
//@endfn
impl ChildPosition {
//@fn pos ChildPosition::Ord::cmp
//@opt expr=&self.0->self.0.as_slice();; expr=&other.0->other.0.as_slice()
//@spec
    ensures r == pcmp(self.segs(), other.segs()), // [D01,D02]
//@endfn
//@fn pos ChildPosition::PartialOrd::partial_cmp
//@spec
    ensures r == Some(pcmp(self.segs(), other.segs())), // [D01,D02]
//@endfn
//@fn pos ChildPosition::wrap
//@opt type=PositionSegment->u32
//@spec
    ensures final(self).segs() == old(self).segs().push(index), // [D01,D02]
//@endfn
//@fn pos ChildPosition::next_sibling
//@opt expr=self.0.clone()->vx_clone_u32s(&self.0)
//@spec
    requires self.segs().len() > 0, self.segs()[0] < u32::MAX,
    ensures r.segs() == bumped(self.segs()), // [D02]
//@endfn
//@fn pos ChildPosition::is_root
//@spec
    ensures r == (self.segs().len() == 0),
//@endfn
    /// derived: Default, Clone
    pub fn default() -> (r: Self)
        ensures r.segs() == Seq::<u32>::empty(),
    { ChildPosition(Vec::new()) }
    pub fn clone(&self) -> (r: Self)
        ensures r.segs() == self.segs(),
    { ChildPosition(vx_clone_u32s(&self.0)) }
}
} // verus!
