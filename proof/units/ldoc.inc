verus! {
// ======== trusted contract on the document ========
pub type Doc = spec_fn(int) -> Seq<int>;
pub struct World { pub doc: Ghost<Doc>, pub next: Ghost<int> }
/// fragments have odd numbers, other nodes even ones
pub open spec fn is_frag(x: int) -> bool { x % 2 == 1 }
impl World {
    pub open spec fn kids(&self, c: int) -> Seq<int> { (self.doc@)(c) }
    /// a node is a child once, of one node; nodes not made yet are nowhere
    pub open spec fn tidy(&self) -> bool {
        &&& forall|c: int| (#[trigger] self.kids(c)).no_duplicates()
        &&& forall|c: int, x: int| #[trigger] self.kids(c).contains(x) ==> x < self.next@ && self.home(x) == c && !is_frag(x) && x != c
    }
    /// the parent of a node that has one
    pub open spec fn home(&self, x: int) -> int { choose|c: int| #[trigger] self.kids(c).contains(x) }
}
#[verifier::external_body]
pub struct JsValue { x: u8 }
#[verifier::external_body]
pub struct Node { x: u8 }
pub open spec fn oid(n: Option<&Node>) -> Option<int> { match n { Some(n) => Some(n.id()), None => None } }
impl Node {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Node)
        ensures r.id() == self.id(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_same_node(&self, o: Option<&Node>) -> (r: bool)
        ensures r == (o is Some && o.unwrap().id() == self.id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent_node(&self, w: &World) -> (r: Option<Node>)
        requires w.tidy(),
        ensures forall|c: int| #[trigger] w.kids(c).contains(self.id()) ==> r is Some && r.unwrap().id() == c,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_sibling(&self, w: &World) -> (r: Option<Node>)
        requires w.tidy(),
        ensures
            forall|c: int| #[trigger] w.kids(c).contains(self.id()) ==> {
                let i = idx(w.kids(c), self.id());
                &&& r is Some <==> i + 1 < w.kids(c).len()
                &&& r is Some ==> r.unwrap().id() == w.kids(c)[i + 1]
            },
    { unimplemented!() }
    /// insertBefore of a node that is not above self (of a fragment: of what is in it)
    #[verifier::external_body]
    pub fn insert_before(&self, child: &Node, before: Option<&Node>, w: &mut World) -> (r: Result<Node, JsValue>)
        requires old(w).tidy(), child.id() < old(w).next@, self.id() != child.id(),
        ensures
            final(w).next == old(w).next,
            oid(before) == Some(child.id()) ==> (r is Ok <==> old(w).kids(self.id()).contains(child.id())) && *final(w) == *old(w),
            oid(before) != Some(child.id()) ==> (r is Ok <==> (before is None || old(w).kids(self.id()).contains(before.unwrap().id()))),
            is_frag(child.id()) && r is Ok ==> poured(*old(w), *final(w), self.id(), child.id(), oid(before)),
            !is_frag(child.id()) && oid(before) != Some(child.id()) && r is Ok ==> forall|n: int| #[trigger] final(w).kids(n) == (if n == self.id() { place(cut(old(w).kids(n), child.id()), child.id(), oid(before)) } else { cut(old(w).kids(n), child.id()) }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_child(&self, child: &Node, w: &mut World) -> (r: Result<Node, JsValue>)
        requires old(w).tidy(),
        ensures
            final(w).next == old(w).next,
            r is Ok <==> old(w).kids(self.id()).contains(child.id()),
            r is Ok ==> forall|n: int| #[trigger] final(w).kids(n) == (if n == self.id() { cut(old(w).kids(n), child.id()) } else { old(w).kids(n) }),
            r is Err ==> *final(w) == *old(w),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Comment { x: u8 }
impl Comment {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: Result<Comment, JsValue>)
        ensures r is Ok, old(w).next@ <= r->Ok_0.id() < final(w).next@, !is_frag(r->Ok_0.id()), final(w).doc == old(w).doc,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: Node)
        ensures r.id() == self.id(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct DocumentFragment { x: u8 }
impl DocumentFragment {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: Result<DocumentFragment, JsValue>)
        ensures r is Ok, old(w).next@ <= r->Ok_0.id() < final(w).next@, is_frag(r->Ok_0.id()), final(w).doc == old(w).doc, final(w).kids(r->Ok_0.id()) == Seq::<int>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DocumentFragment)
        ensures r.id() == self.id(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Node)
        ensures r.id() == self.id(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append_child(&self, child: &Node, w: &mut World) -> (r: Result<Node, JsValue>)
        requires old(w).tidy(), !is_frag(child.id()), self.id() != child.id(),
        ensures
            r is Ok, final(w).next == old(w).next,
            forall|n: int| #[trigger] final(w).kids(n) == (if n == self.id() { place(cut(old(w).kids(n), child.id()), child.id(), None) } else { cut(old(w).kids(n), child.id()) }),
    { unimplemented!() }
}
/// UnwrapThrowExt: an exception unless it went well
pub trait VxThrow<T>: Sized {
    spec fn well(&self) -> bool;
    spec fn got(&self) -> T;
    fn unwrap_throw(self) -> (r: T)
        requires self.well(),
        ensures r == self.got();
}
impl<T> VxThrow<T> for Option<T> {
    open spec fn well(&self) -> bool { *self is Some }
    open spec fn got(&self) -> T { self->Some_0 }
    fn unwrap_throw(self) -> (r: T) { match self { Some(t) => t, None => { vstd::pervasive::unreached() } } }
}
impl<T, E> VxThrow<T> for Result<T, E> {
    open spec fn well(&self) -> bool { *self is Ok }
    open spec fn got(&self) -> T { self->Ok_0 }
    fn unwrap_throw(self) -> (r: T) { match self { Ok(t) => t, Err(_) => { vstd::pervasive::unreached() } } }
}
pub proof fn tidy_placed(w0: World, c: int, x: int, b: Option<int>, w1: World)
    requires
        w0.tidy(), x < w0.next@, !is_frag(x), x != c, w1.next@ >= w0.next@,
        b is Some ==> w0.kids(c).contains(b.unwrap()) && b != Some(x),
        forall|n: int| #[trigger] w1.kids(n) == (if n == c { place(cut(w0.kids(n), x), x, b) } else { cut(w0.kids(n), x) }),
    ensures w1.tidy(),
{
    assert forall|n: int| (#[trigger] w1.kids(n)).no_duplicates() by {
        cut_rank(w0.kids(n), x);
        if n == c { place_rank(cut(w0.kids(n), x), x, b); }
    }
    assert forall|n: int, y: int| #[trigger] w1.kids(n).contains(y) implies y < w1.next@ && !is_frag(y) && y != n && (y != x ==> w0.kids(n).contains(y)) && (y == x ==> n == c) by {
        cut_rank(w0.kids(n), x);
        if n == c { place_rank(cut(w0.kids(n), x), x, b); }
    }
    assert forall|n: int, y: int| #[trigger] w1.kids(n).contains(y) implies w1.home(y) == n by {
        let m = w1.home(y);
        assert(w1.kids(m).contains(y));
        if y != x { assert(w0.kids(n).contains(y) && w0.kids(m).contains(y)); assert(w0.home(y) == n); assert(w0.home(y) == m); }
    }
}
pub proof fn tidy_cut(w0: World, c: int, x: int, w1: World)
    requires
        w0.tidy(), w1.next@ >= w0.next@,
        forall|n: int| #[trigger] w1.kids(n) == (if n == c { cut(w0.kids(n), x) } else { w0.kids(n) }),
    ensures w1.tidy(),
{
    assert forall|n: int| (#[trigger] w1.kids(n)).no_duplicates() by { assert(w0.kids(n).no_duplicates()); cut_rank(w0.kids(n), x); }
    assert forall|n: int, y: int| #[trigger] w1.kids(n).contains(y) implies w0.kids(n).contains(y) by { assert(w0.kids(n).no_duplicates()); cut_rank(w0.kids(n), x); }
    assert forall|n: int, y: int| #[trigger] w1.kids(n).contains(y) implies w1.home(y) == n by {
        let m = w1.home(y);
        assert(w1.kids(m).contains(y));
        assert(w0.kids(n).contains(y) && w0.kids(m).contains(y)); assert(w0.home(y) == n); assert(w0.home(y) == m);
    }
}
pub proof fn tidy_made(w0: World, w1: World)
    requires w0.tidy(), w1.doc == w0.doc, w1.next@ >= w0.next@,
    ensures w1.tidy(),
{
    assert forall|c: int| (#[trigger] w1.kids(c)).no_duplicates() by { assert(w0.kids(c).no_duplicates()); }
    assert forall|c: int, x: int| #[trigger] w1.kids(c).contains(x) implies x < w1.next@ && w1.home(x) == c && !is_frag(x) && x != c by { assert(w0.kids(c).contains(x)); assert(w1.kids(w1.home(x)).contains(x)); assert(w0.kids(w1.home(x)).contains(x)); }
}
// ======== moving a run of nodes ========
/// the nodes from st to en
pub open spec fn span(s: Seq<int>, st: int, en: int) -> spec_fn(int) -> bool {
    |x: int| s.contains(x) && idx(s, st) <= idx(s, x) <= idx(s, en)
}
/// r is s with the nodes p of src, in their order, before a
pub open spec fn shifted(src: Seq<int>, s: Seq<int>, p: spec_fn(int) -> bool, a: Option<int>, r: Seq<int>) -> bool {
    &&& r.no_duplicates()
    &&& forall|x: int| #[trigger] r.contains(x) <==> s.contains(x) || p(x)
    &&& forall|x: int, y: int| #[trigger] bef(r, x, y) <==> (if p(x) && p(y) { bef(src, x, y) } else if p(x) { s.contains(y) && right(s, y, a) } else if p(y) { s.contains(x) && left(s, x, a) } else { bef(s, x, y) })
}
/// r is s without the nodes p
pub open spec fn dropped(s: Seq<int>, p: spec_fn(int) -> bool, r: Seq<int>) -> bool {
    &&& r.no_duplicates()
    &&& forall|x: int| #[trigger] r.contains(x) <==> s.contains(x) && !p(x)
    &&& forall|x: int, y: int| #[trigger] bef(r, x, y) <==> bef(s, x, y) && !p(x) && !p(y)
}
pub open spec fn upto(src: Seq<int>, p: spec_fn(int) -> bool, n: int) -> spec_fn(int) -> bool { |x: int| p(x) && idx(src, x) < idx(src, n) }
proof fn shift_step(src: Seq<int>, s: Seq<int>, p: spec_fn(int) -> bool, a: Option<int>, cur: Seq<int>, n: int, q: spec_fn(int) -> bool)
    requires
        src.no_duplicates(), s.no_duplicates(),
        shifted(src, s, p, a, cur),
        src.contains(n), !p(n), a != Some(n),
        a is Some ==> s.contains(a.unwrap()) && !p(a.unwrap()),
        forall|x: int| #[trigger] q(x) == (p(x) || x == n),
        forall|x: int| #[trigger] p(x) ==> bef(src, x, n),
    ensures
        shifted(src, s, q, a, place(cut(cur, n), n, a)),
{
    let r = place(cut(cur, n), n, a);
    cut_rank(cur, n);
    place_rank(cut(cur, n), n, a);
    assert forall|x: int| #[trigger] r.contains(x) <==> s.contains(x) || q(x) by { assert(cut(cur, n).contains(x) == (cur.contains(x) && x != n)); }
    assert forall|x: int, y: int| #[trigger] bef(r, x, y) <==> (if q(x) && q(y) { bef(src, x, y) } else if q(x) { s.contains(y) && right(s, y, a) } else if q(y) { s.contains(x) && left(s, x, a) } else { bef(s, x, y) }) by {
        let t = cut(cur, n);
        assert(bef(t, x, y) == (bef(cur, x, y) && x != n && y != n));
        assert(t.contains(x) == (cur.contains(x) && x != n));
        assert(t.contains(y) == (cur.contains(y) && y != n));
        if let Some(b) = a {
            assert(bef(t, b, y) == (bef(cur, b, y) && y != n));
            assert(bef(t, x, b) == (bef(cur, x, b) && x != n));
        }
    }
}
proof fn drop_step(s: Seq<int>, p: spec_fn(int) -> bool, cur: Seq<int>, n: int, q: spec_fn(int) -> bool)
    requires s.no_duplicates(), dropped(s, p, cur), forall|x: int| #[trigger] q(x) == (p(x) || x == n),
    ensures dropped(s, q, cut(cur, n)),
{ cut_rank(cur, n); }
proof fn next_is(s: Seq<int>, n: int, m: int)
    requires s.no_duplicates(), bef(s, n, m), forall|y: int| !(#[trigger] bef(s, n, y) && bef(s, y, m)),
    ensures idx(s, n) + 1 < s.len(), s[idx(s, n) + 1] == m,
{
    at_idx(s, n); at_idx(s, m);
    let z = s[idx(s, n) + 1];
    idx_at(s, idx(s, n) + 1);
    if z != m { assert(idx(s, z) != idx(s, m)) by { assert(s[idx(s, z)] == z && s[idx(s, m)] == m); } assert(bef(s, n, z) && bef(s, z, m)); }
}
/// what inserting the fragment g before a into c does
pub open spec fn poured(w0: World, w1: World, c: int, g: int, a: Option<int>) -> bool {
    let all = |x: int| w0.kids(g).contains(x);
    &&& shifted(w0.kids(g), w0.kids(c), all, a, w1.kids(c))
    &&& w1.kids(g) == Seq::<int>::empty()
    &&& forall|n: int| n != c && n != g ==> #[trigger] w1.kids(n) == w0.kids(n)
}
/// what moving the nodes from st to en into c before a does
pub open spec fn relocated(w0: World, w1: World, c: int, st: int, en: int, a: Option<int>) -> bool {
    let h = w0.home(st);
    let p = span(w0.kids(h), st, en);
    &&& w1.tidy()
    &&& w1.next == w0.next
    &&& shifted(w0.kids(h), w0.kids(c), p, a, w1.kids(c))
    &&& h != c ==> dropped(w0.kids(h), p, w1.kids(h))
    &&& forall|n: int| n != c && n != h ==> #[trigger] w1.kids(n) == w0.kids(n)
}
pub proof fn tidy_poured(w0: World, w1: World, c: int, g: int, a: Option<int>)
    requires w0.tidy(), poured(w0, w1, c, g, a), w1.next == w0.next, c != g, is_frag(g), c < w0.next@, !is_frag(c), !w0.kids(g).contains(c),
    ensures w1.tidy(),
{
    let all = |x: int| w0.kids(g).contains(x);
    assert forall|n: int| (#[trigger] w1.kids(n)).no_duplicates() by { assert(w0.kids(n).no_duplicates()); if n == g { assert(w1.kids(n) == Seq::<int>::empty()); } }
    assert forall|n: int, x: int| #[trigger] w1.kids(n).contains(x) implies n != g && (if n == c { w0.kids(c).contains(x) || w0.kids(g).contains(x) } else { w0.kids(n).contains(x) }) by {
        if n == c { assert(all(x) == w0.kids(g).contains(x)); } else if n != g { assert(w1.kids(n) == w0.kids(n)); }
    }
    assert forall|n: int, x: int| #[trigger] w1.kids(n).contains(x) implies x < w1.next@ && w1.home(x) == n && !is_frag(x) && x != n by {
        let h = w1.home(x);
        assert(w1.kids(h).contains(x));
        if n == c && w0.kids(g).contains(x) { assert(w0.home(x) == g); assert(h == c) by { if h != c { assert(w0.kids(h).contains(x)); } } }
        else { assert(w0.kids(n).contains(x)); if h == c && w0.kids(g).contains(x) { assert(n == g); } else { assert(w0.kids(h).contains(x)); } }
    }
}
//@default cell;; pin
//@fn dl move_nodes_before
//@opt world=next_sibling,insert_before;; addparam=w: &mut World;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        old(w).tidy(),
        !span(old(w).kids(old(w).home(start_marker.id())), start_marker.id(), end_marker.id())(container.id()),
        old(w).kids(old(w).home(start_marker.id())).contains(start_marker.id()),
        old(w).kids(old(w).home(start_marker.id())).contains(end_marker.id()),
        idx(old(w).kids(old(w).home(start_marker.id())), start_marker.id()) <= idx(old(w).kids(old(w).home(start_marker.id())), end_marker.id()),
        after is Some ==> old(w).kids(container.id()).contains(after.unwrap().id()) && !span(old(w).kids(old(w).home(start_marker.id())), start_marker.id(), end_marker.id())(after.unwrap().id()),
    ensures
        relocated(*old(w), *final(w), container.id(), start_marker.id(), end_marker.id(), oid(after)),
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let ghost w0 = *w;
    let ghost h = w0.home(start_marker.id());
    let ghost src = w0.kids(h);
    let ghost c = container.id();
    let ghost s = w0.kids(c);
    let ghost p = span(src, start_marker.id(), end_marker.id());
    let ghost a = oid(after);
    proof { assert(w0.kids(h).no_duplicates() && w0.kids(c).no_duplicates()); }
//@loopbefore 0
    proof {
        let u = upto(src, p, node.id());
        assert forall|x: int| !#[trigger] u(x) by {}
        assert(shifted(src, s, u, a, w.kids(c)));
        assert(dropped(src, u, w.kids(h)));
    }
//@loop 0
    invariant_except_break
        p(node.id()),
        shifted(src, s, upto(src, p, node.id()), a, w.kids(c)),
        h != c ==> dropped(src, upto(src, p, node.id()), w.kids(h)),
        forall|n: int| n != c && n != h ==> #[trigger] w.kids(n) == w0.kids(n),
    invariant
        w0.tidy(), w0.next == w.next, w.tidy(),
        h == w0.home(start_marker.id()), src == w0.kids(h), c == container.id(), s == w0.kids(c), a == oid(after),
        p == span(src, start_marker.id(), end_marker.id()),
        src.contains(start_marker.id()), src.contains(end_marker.id()), src.no_duplicates(), s.no_duplicates(),
        a is Some ==> s.contains(a.unwrap()) && !p(a.unwrap()), !p(c),
    ensures
        relocated(w0, *w, c, start_marker.id(), end_marker.id(), a),
//@loopstart 0
    let ghost w1 = *w;
    let ghost nd = node.id();
    let ghost u = upto(src, p, nd);
    proof {
        // the parent of the node, as the document is now
        assert(w0.kids(h).contains(nd));
        assert(w1.kids(h).contains(nd));
        assert(nd < w1.next@);
        if nd != end_marker.id() {
            at_idx(src, nd); at_idx(src, end_marker.id());
            let j = idx(src, nd);
            let m = src[j + 1];
            idx_at(src, j + 1);
            assert(p(m));
            let k = w1.kids(h);
            assert(bef(src, nd, m));
            assert(!u(nd) && !u(m));
            assert(bef(k, nd, m));
            assert forall|y: int| !(#[trigger] bef(k, nd, y) && bef(k, y, m)) by {
                if bef(k, nd, y) && bef(k, y, m) {
                    assert(!bef(src, nd, y) || !bef(src, y, m)) ;
                    if let Some(b) = a { assert(b != m && b != nd); if s.contains(b) { at_idx(s, b); } }
                }
            }
            next_is(k, nd, m);
        }
    }
//@loopend 0
    proof {}
//@after insert_before(&node, after, w)
    let ghost w2 = *w;
    proof {
        tidy_placed(w1, c, nd, a, w2);
        let q = |x: int| u(x) || x == nd;
        assert forall|x: int| #[trigger] u(x) implies bef(src, x, nd) by {}
        shift_step(src, s, u, a, w1.kids(c), nd, q);
        assert(shifted(src, s, q, a, w2.kids(c)));
        if h != c {
            drop_step(src, u, w1.kids(h), nd, q);
            assert(dropped(src, q, w2.kids(h)));
        }
        assert forall|n: int| n != c && n != h implies #[trigger] w2.kids(n) == w0.kids(n) by {
            assert(w1.kids(n) == w0.kids(n));
            assert(w1.kids(n).no_duplicates());
            cut_rank(w1.kids(n), nd);
            if w1.kids(n).contains(nd) { assert(w1.home(nd) == n); assert(w1.home(nd) == h); }
        }
        if nd == end_marker.id() {
            assert forall|x: int| #[trigger] q(x) == p(x) by { if p(x) { at_idx(src, x); at_idx(src, nd); } }
            assert(q =~= p);
        } else {
            at_idx(src, nd);
            let m = src[idx(src, nd) + 1];
            at_idx(src, end_marker.id());
            idx_at(src, idx(src, nd) + 1);
            let v = upto(src, p, m);
            assert forall|x: int| #[trigger] q(x) == v(x) by { if v(x) { at_idx(src, x); } }
            assert(q =~= v);
        }
    }
//@endfn
} // verus!
