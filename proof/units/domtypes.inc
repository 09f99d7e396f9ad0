verus! {
// ======== trusted contract on the document: every node has a list of children ========
#[verifier::external_body]
pub struct JsValue { x: u8 }
impl Node {
    #[verifier::external_body]
    pub fn insert_before(&self, child: &Node, before: Option<&Node>, w: &mut World) -> (r: Result<Node, JsValue>)
        ensures
            final(w).log == old(w).log, final(w).dropping == old(w).dropping,
            r is Ok <==> (before is None || detached(old(w).doc@, child.id())(self.id()).contains(before.unwrap().id())),
            r is Ok ==> final(w).doc@ == placed(detached(old(w).doc@, child.id()), self.id(), child.id(), match before { Some(b) => Some(b.id()), None => None }),
            r is Err ==> final(w).doc@ == old(w).doc@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_child(&self, child: &Node, w: &mut World) -> (r: Result<Node, JsValue>)
        ensures
            final(w).log == old(w).log, final(w).dropping == old(w).dropping,
            r is Ok <==> old(w).kids(self.id()).contains(child.id()),
            r is Ok ==> final(w).doc@ == with_kids(old(w).doc@, self.id(), without(old(w).kids(self.id()), child.id())),
            r is Err ==> final(w).doc@ == old(w).doc@,
    { unimplemented!() }
}
/// UnwrapThrowExt: an exception unless it went well
pub trait VxThrow<T>: Sized {
    spec fn well(&self) -> bool;
    spec fn got(&self) -> T;
    fn unwrap_throw(self) -> (r: T)
        requires self.well(),
        ensures r == self.got();
}
impl<T, E> VxThrow<T> for Result<T, E> {
    open spec fn well(&self) -> bool { *self is Ok }
    open spec fn got(&self) -> T { self->Ok_0 }
    fn unwrap_throw(self) -> (r: T) { match self { Ok(t) => t, Err(_) => { vstd::pervasive::unreached() } } }
}
pub type Doc = spec_fn(int) -> Seq<int>;
pub open spec fn other(x: int) -> spec_fn(int) -> bool { |y: int| y != x }
pub open spec fn without(s: Seq<int>, x: int) -> Seq<int> { s.filter(other(x)) }
pub open spec fn with_kids(d: Doc, c: int, s: Seq<int>) -> Doc { |n: int| if n == c { s } else { d(n) } }
/// the child is taken from where it was first
pub open spec fn detached(d: Doc, x: int) -> Doc { |n: int| without(d(n), x) }
pub open spec fn put(s: Seq<int>, x: int, before: Option<int>) -> Seq<int> {
    match before { Some(b) => s.insert(s.index_of(b), x), None => s.push(x) }
}
pub open spec fn placed(d: Doc, c: int, x: int, before: Option<int>) -> Doc { with_kids(d, c, put(d(c), x, before)) }
pub proof fn kids_twice(d: Doc, c: int, s: Seq<int>, t: Seq<int>)
    ensures with_kids(with_kids(d, c, s), c, t) == with_kids(d, c, t), with_kids(d, c, d(c)) == d,
{ assert(with_kids(with_kids(d, c, s), c, t) =~= with_kids(d, c, t)); assert(with_kids(d, c, d(c)) =~= d); }
/// nowhere in the document
pub open spec fn loose(d: Doc, x: int) -> bool { forall|n: int| !(#[trigger] d(n)).contains(x) }
} // verus!
verus! {
// ======== sequences: who comes before whom ========
pub open spec fn before(s: Seq<int>, a: int, b: int) -> bool { exists|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == a && #[trigger] s[j] == b }
pub proof fn before_at(s: Seq<int>, i: int, j: int)
    requires 0 <= i < j < s.len(),
    ensures before(s, s[i], s[j]),
{}
pub proof fn without_none(s: Seq<int>, x: int)
    requires !s.contains(x),
    ensures without(s, x) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert(!s.drop_last().contains(x)) by { if s.drop_last().contains(x) { let k = s.drop_last().index_of(x); assert(s[k] == x); } }
        without_none(s.drop_last(), x);
        assert(s.last() != x) by { assert(s[s.len() - 1] == s.last()); }
        assert(s =~= s.drop_last().push(s.last()));
    } else { assert(without(s, x) =~= s); }
}
pub proof fn loose_detached(d: Doc, x: int)
    requires loose(d, x),
    ensures detached(d, x) == d,
{
    assert forall|n: int| #[trigger] detached(d, x)(n) == d(n) by { without_none(d(n), x); }
    assert(detached(d, x) =~= d);
}
/// what a filter keeps, and in what order
pub proof fn filter_facts(s: Seq<int>, p: spec_fn(int) -> bool)
    ensures
        forall|x: int| #[trigger] s.filter(p).contains(x) <==> s.contains(x) && p(x),
        forall|a: int, b: int| #[trigger] before(s, a, b) && p(a) && p(b) ==> before(s.filter(p), a, b),
        s.no_duplicates() ==> s.filter(p).no_duplicates(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let (d, l) = (s.drop_last(), s.last());
        filter_facts(d, p);
        let (f, fd) = (s.filter(p), d.filter(p));
        assert(f == if p(l) { fd.push(l) } else { fd });
        assert(s =~= d.push(l));
        assert forall|x: int| #[trigger] f.contains(x) <==> s.contains(x) && p(x) by {
            if f.contains(x) { let k = f.index_of(x); if k < fd.len() { assert(fd[k] == x); assert(fd.contains(x)); let m = d.index_of(x); assert(s[m] == x); } else { assert(s[s.len() - 1] == x); } }
            if s.contains(x) && p(x) { let m = s.index_of(x); if m < d.len() { assert(d[m] == x); assert(fd.contains(x)); let k = fd.index_of(x); assert(f[k] == x); } else { assert(f[fd.len() as int] == x); } }
        }
        assert forall|a: int, b: int| #[trigger] before(s, a, b) && p(a) && p(b) implies before(f, a, b) by {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == a && #[trigger] s[j] == b;
            if j < d.len() {
                assert(d[i] == a && d[j] == b); assert(before(d, a, b));
                let (i2, j2) = choose|i: int, j: int| 0 <= i < j < fd.len() && #[trigger] fd[i] == a && #[trigger] fd[j] == b;
                assert(f[i2] == a && f[j2] == b);
            } else {
                assert(d[i] == a); assert(d.contains(a)); assert(fd.contains(a)); let k = fd.index_of(a); assert(f[k] == a); assert(f[fd.len() as int] == b);
            }
        }
        if s.no_duplicates() {
            assert(d.no_duplicates());
            assert forall|i: int, j: int| 0 <= i < f.len() && 0 <= j < f.len() && i != j implies f[i] != f[j] by {
                if i < fd.len() { assert(fd[i] == f[i]); assert(fd.contains(f[i])); let m = d.index_of(f[i]); assert(s[m] == f[i]); }
                if j < fd.len() { assert(fd[j] == f[j]); assert(fd.contains(f[j])); let m = d.index_of(f[j]); assert(s[m] == f[j]); }
            }
        }
    } else { assert(s.filter(p) =~= s); assert(forall|x: int| !s.contains(x)); }
}
pub proof fn filter_filter(s: Seq<int>, p: spec_fn(int) -> bool, q: spec_fn(int) -> bool, r: spec_fn(int) -> bool)
    requires forall|x: int| #[trigger] r(x) == (p(x) && q(x)),
    ensures s.filter(p).filter(q) == s.filter(r),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let (d, l) = (s.drop_last(), s.last());
        filter_filter(d, p, q, r);
        assert(s.filter(r) == if r(l) { d.filter(r).push(l) } else { d.filter(r) });
        if p(l) { assert(d.filter(p).push(l).drop_last() =~= d.filter(p)); assert(d.filter(p).push(l).last() == l); }
    } else { assert(s.filter(p) =~= s); assert(s.filter(r) =~= s); assert(s.filter(q) =~= s); }
}
pub proof fn filter_ext(s: Seq<int>, p: spec_fn(int) -> bool, q: spec_fn(int) -> bool)
    requires forall|x: int| #[trigger] p(x) == q(x),
    ensures s.filter(p) == s.filter(q),
{ assert(p =~= q); }
pub proof fn keep_all(s: Seq<int>, p: spec_fn(int) -> bool)
    requires forall|x: int| #[trigger] p(x),
    ensures s.filter(p) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { keep_all(s.drop_last(), p); assert(p(s.last())); assert(s =~= s.drop_last().push(s.last())); } else { assert(s.filter(p) =~= s); }
}
/// putting a new one in leaves the others as they were
pub proof fn put_facts(s: Seq<int>, x: int, at: Option<int>)
    requires !s.contains(x), s.no_duplicates(), at is Some ==> s.contains(at.unwrap()),
    ensures
        forall|y: int| #[trigger] put(s, x, at).contains(y) <==> y == x || s.contains(y),
        put(s, x, at).no_duplicates(),
        forall|a: int, b: int| #[trigger] before(s, a, b) ==> before(put(s, x, at), a, b),
        at is None ==> forall|a: int| #[trigger] s.contains(a) ==> before(put(s, x, at), a, x),
        at is Some ==> before(put(s, x, at), x, at.unwrap()),
        at is Some ==> forall|a: int| #[trigger] before(s, a, at.unwrap()) ==> before(put(s, x, at), a, x),
        at is Some ==> forall|a: int| #[trigger] before(s, at.unwrap(), a) ==> before(put(s, x, at), x, a),
{
    let t = put(s, x, at);
    let k = match at { Some(b) => s.index_of(b), None => s.len() as int };
    assert(t =~= s.insert(k, x));
    assert(t[k] == x);
    assert forall|i: int| 0 <= i < s.len() implies t[if i < k { i } else { i + 1 }] == #[trigger] s[i] by {}
    assert forall|y: int| #[trigger] t.contains(y) <==> y == x || s.contains(y) by {
        if t.contains(y) { let m = t.index_of(y); if m < k { assert(s[m] == y); } else if m > k { assert(s[m - 1] == y); } }
        if s.contains(y) { let m = s.index_of(y); assert(t[if m < k { m } else { m + 1 }] == y); }
    }
    assert forall|a: int, b: int| #[trigger] before(s, a, b) implies before(t, a, b) by {
        let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == a && #[trigger] s[j] == b;
        before_at(t, if i < k { i } else { i + 1 }, if j < k { j } else { j + 1 });
    }
    if at is None {
        assert forall|a: int| #[trigger] s.contains(a) implies before(t, a, x) by { let i = s.index_of(a); before_at(t, i, k); }
    } else {
        let b = at.unwrap();
        assert(s[k] == b); before_at(t, k, k + 1);
        assert forall|a: int| #[trigger] before(s, a, b) implies before(t, a, x) by {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == a && #[trigger] s[j] == b;
            assert(j == k); before_at(t, i, k);
        }
        assert forall|a: int| #[trigger] before(s, b, a) implies before(t, x, a) by {
            let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && #[trigger] s[i] == b && #[trigger] s[j] == a;
            assert(i == k); before_at(t, k, j + 1);
        }
    }
}
} // verus!
verus! {
// ======== trusted contract on BTreeMap<ChildPosition, Node>: sorted by the Ord of its keys (proved to be plt) ========
pub struct VxSpan<'a> { pub lo: Option<&'a ChildPosition>, pub hi: Option<&'a ChildPosition>, pub incl: bool }
pub fn vx_from<'a>(a: &'a ChildPosition) -> (r: VxSpan<'a>) ensures r.lo == Some(a), r.hi.is_none(), { VxSpan { lo: Some(a), hi: None, incl: false } }
pub fn vx_below<'a>(b: &'a ChildPosition) -> (r: VxSpan<'a>) ensures r.lo.is_none(), r.hi == Some(b), !r.incl, { VxSpan { lo: None, hi: Some(b), incl: false } }
pub fn vx_upto<'a>(b: &'a ChildPosition) -> (r: VxSpan<'a>) ensures r.lo.is_none(), r.hi == Some(b), r.incl, { VxSpan { lo: None, hi: Some(b), incl: true } }
pub fn vx_span<'a>(a: &'a ChildPosition, b: &'a ChildPosition) -> (r: VxSpan<'a>) ensures r.lo == Some(a), r.hi == Some(b), !r.incl, { VxSpan { lo: Some(a), hi: Some(b), incl: false } }
pub fn vx_span_incl<'a>(a: &'a ChildPosition, b: &'a ChildPosition) -> (r: VxSpan<'a>) ensures r.lo == Some(a), r.hi == Some(b), r.incl, { VxSpan { lo: Some(a), hi: Some(b), incl: true } }
impl<'a> VxSpan<'a> {
    pub fn clone(&self) -> (r: Self)
        ensures r == *self,
    { VxSpan { lo: self.lo, hi: self.hi, incl: self.incl } }
    pub open spec fn has(&self, k: Seq<u32>) -> bool {
        &&& self.lo is Some ==> !plt(k, self.lo.unwrap().segs())
        &&& self.hi is Some ==> (plt(k, self.hi.unwrap().segs()) || (self.incl && k == self.hi.unwrap().segs()))
    }
}
pub type Group = Map<Seq<u32>, int>;
#[verifier::external_body]
pub struct PosMap { x: u8 }
impl View for PosMap { type V = Group; uninterp spec fn view(&self) -> Group; }
/// entries in ascending order of key
pub open spec fn sorted(e: Seq<(Seq<u32>, int)>) -> bool { forall|i: int, j: int| 0 <= i < j < e.len() ==> plt((#[trigger] e[i]).0, (#[trigger] e[j]).0) }
pub struct PosRange<'a> { pub e: Ghost<Seq<(Seq<u32>, int)>>, pub x: core::marker::PhantomData<&'a PosMap> }
impl<'a> PosRange<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(&'a ChildPosition, &'a Node)>)
        ensures
            old(self).e@.len() == 0 ==> r.is_none() && final(self).e@ == old(self).e@,
            old(self).e@.len() > 0 ==> r.is_some() && r.unwrap().0.segs() == old(self).e@[0].0 && r.unwrap().1.id() == old(self).e@[0].1 && final(self).e@ == old(self).e@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(&mut self) -> (r: Option<(&'a ChildPosition, &'a Node)>)
        ensures
            old(self).e@.len() == 0 ==> r.is_none() && final(self).e@ == old(self).e@,
            old(self).e@.len() > 0 ==> r.is_some() && r.unwrap().0.segs() == old(self).e@.last().0 && r.unwrap().1.id() == old(self).e@.last().1 && final(self).e@ == old(self).e@.drop_last(),
    { unimplemented!() }
}
pub struct PosValues<'a> { pub e: Ghost<Seq<(Seq<u32>, int)>>, pub x: core::marker::PhantomData<&'a PosMap> }
impl<'a> PosValues<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a Node>)
        ensures
            old(self).e@.len() == 0 ==> r.is_none() && final(self).e@ == old(self).e@,
            old(self).e@.len() > 0 ==> r.is_some() && r.unwrap().id() == old(self).e@[0].1 && final(self).e@ == old(self).e@.skip(1),
    { unimplemented!() }
}
/// e lists the entries of g whose key is in the span
pub open spec fn lists(e: Seq<(Seq<u32>, int)>, g: Group, has: spec_fn(Seq<u32>) -> bool) -> bool {
    &&& sorted(e)
    &&& forall|i: int| 0 <= i < e.len() ==> g.contains_key((#[trigger] e[i]).0) && g[e[i].0] == e[i].1 && has(e[i].0)
    &&& forall|k: Seq<u32>| #[trigger] g.contains_key(k) && has(k) ==> e.contains((k, g[k]))
}
/// what comes next in the group is the first entry at or after p
pub open spec fn next_of(g: Group, p: Seq<u32>, k: Seq<u32>) -> bool {
    g.contains_key(k) && !plt(k, p) && forall|q: Seq<u32>| #[trigger] g.contains_key(q) && !plt(q, p) ==> q == k || plt(k, q)
}
pub open spec fn none_from(g: Group, p: Seq<u32>) -> bool { forall|q: Seq<u32>| #[trigger] g.contains_key(q) ==> plt(q, p) }
impl PosMap {
    pub fn range<'a>(&'a self, s: VxSpan<'a>) -> (r: PosRange<'a>)
        ensures
            lists(r.e@, self@, |k: Seq<u32>| s.has(k)),
            s.lo is Some && s.hi is None && r.e@.len() > 0 ==> next_of(self@, s.lo.unwrap().segs(), r.e@[0].0) && self@[r.e@[0].0] == r.e@[0].1,
            s.lo is Some && s.hi is None && r.e@.len() == 0 ==> none_from(self@, s.lo.unwrap().segs()),
    {
        let r = self.range_all(s);
        proof {
            if s.lo is Some && s.hi is None {
                let p = s.lo.unwrap().segs();
                assert forall|q: Seq<u32>| #[trigger] self@.contains_key(q) && !plt(q, p) implies r.e@.len() > 0 && (q == r.e@[0].0 || plt(r.e@[0].0, q)) by {
                    assert(s.has(q)); assert(r.e@.contains((q, self@[q]))); let i = r.e@.index_of((q, self@[q])); assert(r.e@[i].0 == q);
                }
            }
        }
        r
    }
    #[verifier::external_body]
    pub fn range_all<'a>(&'a self, s: VxSpan<'a>) -> (r: PosRange<'a>)
        ensures lists(r.e@, self@, |k: Seq<u32>| s.has(k)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values<'a>(&'a self) -> (r: PosValues<'a>)
        ensures lists(r.e@, self@, |k: Seq<u32>| true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: ChildPosition, v: Node) -> (r: Option<Node>)
        ensures final(self)@ == old(self)@.insert(k.segs(), v.id()), r is Some <==> old(self)@.contains_key(k.segs()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &ChildPosition) -> (r: Option<Node>)
        ensures final(self)@ == old(self)@.remove(k.segs()), r is Some <==> old(self)@.contains_key(k.segs()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self)
        ensures final(self)@ == Map::<Seq<u32>, int>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool)
        ensures r <==> self@ == Map::<Seq<u32>, int>::empty(),
    { unimplemented!() }
}
/// what the RefCells of node groups hold (NodeGroup is a handle)
pub struct Groups { pub g: Ghost<spec_fn(int) -> Group> }
impl Groups { pub open spec fn of(&self, g: int) -> Group { (self.g@)(g) } }
pub open spec fn with_group(d: spec_fn(int) -> Group, c: int, s: Group) -> spec_fn(int) -> Group { |n: int| if n == c { s } else { d(n) } }
impl NodeGroup {
    /// RefCell::borrow_mut: the groups are reached one at a time
    #[verifier::external_body]
    pub fn borrow_mut<'a>(&self, gs: &'a mut Groups) -> (r: &'a mut PosMap)
        ensures r@ == old(gs).of(self.id()), final(gs).g@ == with_group(old(gs).g@, self.id(), final(r)@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow<'a>(&self, gs: &'a Groups) -> (r: &'a PosMap)
        ensures r@ == gs.of(self.id()),
    { unimplemented!() }
}
} // verus!
