verus! {
// ======== trusted contract on the executor: dropping a task lets its future, and what it shows, go by the next poll ========
#[verifier::external_body]
pub struct LocalExecutor { x: u8 }
#[verifier::reject_recursive_types(F)]
#[verifier::external_body]
pub struct Task<F> { f: F }
impl<F> Task<F> {
    /// the future it runs
    pub uninterp spec fn fut(&self) -> F;
    /// the node before which that future shows what it renders
    pub uninterp spec fn at(&self) -> int;
}
impl LocalExecutor {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn<F>(&self, f: SiblingNodeFuture<F>) -> (r: Task<F>)
        ensures r.fut() == f.fut, r.at() == f.before.id(),
    { unimplemented!() }
}
/// what the future renders goes before the node (proved of the real one in units dom and dnode)
pub struct SiblingNodeFuture<F> { pub fut: F, pub before: Node }
impl<F> SiblingNodeFuture<F> {
    pub fn new(fut: F, before: Node) -> (r: Self)
        ensures r.fut == fut, r.before == before,
    { SiblingNodeFuture { fut, before } }
}
pub fn drop<T>(t: T) {}
/// impl FnMut(&K) -> bool
pub trait VxPred<K>: Sized {
    spec fn calls(&self) -> Seq<(K, bool)>;
    /// what it keeps true of what it has captured
    spec fn inv(&self) -> bool;
    /// and what it only looks at
    spec fn of(&self) -> Seq<K>;
    fn call(&mut self, k: &K) -> (r: bool)
        requires old(self).inv(),
        ensures final(self).calls() == old(self).calls().push((*k, r)), final(self).inv(), final(self).of() == old(self).of();
}
/// the calls since the first n: each key of o has been asked about, once
pub open spec fn polled<K>(calls: Seq<(K, bool)>, n: int, o: Seq<K>) -> bool {
    &&& forall|k: K| #[trigger] o.contains(k) <==> said(calls, n, k, true) || said(calls, n, k, false)
    &&& forall|i: int, j: int| n <= i < j < calls.len() ==> (#[trigger] calls[i]).0 != (#[trigger] calls[j]).0
}
pub open spec fn said<K>(calls: Seq<(K, bool)>, n: int, k: K, b: bool) -> bool { exists|i: int| n <= i < calls.len() && #[trigger] calls[i] == (k, b) }
pub proof fn said_none<K>(calls: Seq<(K, bool)>)
    ensures forall|k: K, b: bool| !#[trigger] said(calls, calls.len() as int, k, b),
{}
pub proof fn said_more<K>(calls: Seq<(K, bool)>, n: int, x: (K, bool))
    requires 0 <= n <= calls.len(),
    ensures forall|k: K, b: bool| #[trigger] said(calls.push(x), n, k, b) <==> said(calls, n, k, b) || x == (k, b),
{
    let c1 = calls.push(x);
    assert forall|k: K, b: bool| #[trigger] said(c1, n, k, b) <==> said(calls, n, k, b) || x == (k, b) by {
        if said(c1, n, k, b) { let i = choose|i: int| n <= i < c1.len() && #[trigger] c1[i] == (k, b); if i < calls.len() { assert(calls[i] == (k, b)); } }
        if said(calls, n, k, b) { let i = choose|i: int| n <= i < calls.len() && #[trigger] calls[i] == (k, b); assert(c1[i] == (k, b)); }
        if x == (k, b) { assert(c1[calls.len() as int] == x); }
    }
}
/// whether they are one entry of a map: no two have the same markers
fn vx_same<F>(a: &Stored<F>, b: &Stored<F>) -> (r: bool)
    ensures r == (a.start_marker.id() == b.start_marker.id()),
{ a.start_marker.is_same_node(Some(&b.start_marker)) }
pub open spec fn deref_opt<K>(b: Option<&K>) -> Option<K> { match b { Some(k) => Some(*k), None => None } }
// ---- rendering
/// a cell, read as what is in it
pub fn vx_cell<T>(x: T) -> (r: T)
    ensures r == x,
{ x }
pub struct DetachmentBlocker;
pub struct Pend;
pub fn pending() -> Pend { Pend }
pub struct Waker { x: u8 }
pub fn dummy_waker() -> Waker { Waker { x: 0 } }
pub struct Context { x: u8 }
impl Context {
    pub fn from_waker(w: &Waker) -> Context { Context { x: 0 } }
}
/// what scopeguard::guard makes
pub struct VxScope;
pub fn vx_scope() -> VxScope { VxScope }
/// a future that puts a node where it is rendered (proved of the real one in units dom and dnode)
pub struct ContainerNodeFuture { pub node: Node }
impl ContainerNodeFuture {
    pub fn new(p: Pend, node: Node) -> (r: Self)
        ensures r.node == node,
    { ContainerNodeFuture { node } }
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context, w: &mut World) -> (r: bool)
        requires old(w).tidy(), forall|c: int| !(#[trigger] old(w).kids(c)).contains(old(self).node.id()), !is_frag(old(self).node.id()), old(self).node.id() < old(w).next@,
        ensures
            final(w).next@ == old(w).next@,
            final(self).node == old(self).node,
            exists|p: int, a: Option<int>| put_in(*old(w), *final(w), p, old(self).node.id(), a),
    { unimplemented!() }
}
pub open spec fn put_in(w0: World, w1: World, p: int, x: int, a: Option<int>) -> bool {
    &&& p < w0.next@ && !is_frag(p) && p != x
    // what is rendered into is not waiting in a fragment
    &&& forall|g: int| is_frag(g) ==> !(#[trigger] w0.kids(g)).contains(p)
    &&& a is Some ==> w0.kids(p).contains(a.unwrap())
    &&& w1.kids(p) == place(w0.kids(p), x, a)
    &&& forall|n: int| n != p ==> #[trigger] w1.kids(n) == w0.kids(n)
}
impl LocalExecutor {
    /// running it forever
    #[verifier::external_body]
    pub fn run(&self, p: Pend)

    { unimplemented!() }
}
//@default cell;; pin;; type=web_sys::Node->Node
//@enum dl ContainingNode
//@endfn
#[verifier::reject_recursive_types(F)]
//@struct dl Stored
//@opt generics=<F>;; type=Task<F::Output>->Task<F>
//@endfn
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(F)]
//@struct dl DynamicListInner
//@opt generics=<K, F>
//@endfn
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(F)]
//@struct dl DynamicList
//@opt generics=<K, F>;; type=RefCell<DynamicListInner<K,F>>->DynamicListInner<K, F>;; type=LocalExecutor<'c>->LocalExecutor;; dropfield=detachment_blocker
//@endfn
impl ContainingNode {
    spec fn id(&self) -> int { match self { ContainingNode::Real(n) => n.id(), ContainingNode::Fake(n) => n.id() } }
//@fn dl ContainingNode::get
//@opt expr=fake->fake.as_ref()
//@spec
    ensures r.id() == self.id(),
//@endfn
}
spec fn block<F>(v: Stored<F>) -> Block { Block { st: v.start_marker.id(), en: v.end_marker.id() } }
type Items<K, F> = Map<K, Stored<F>>;
spec fn blocks<K, F>(m: Items<K, F>) -> Blocks<K> { m.map_values(|v: Stored<F>| block(v)) }
proof fn blocks_with<K, F>(m: Items<K, F>, k: K, v: Stored<F>)
    ensures blocks(m.insert(k, v)) == blocks(m).insert(k, block(v)),
{ assert(blocks(m.insert(k, v)) =~= blocks(m).insert(k, block(v))); }
proof fn blocks_without<K, F>(m: Items<K, F>, k: K)
    ensures blocks(m.remove(k)) == blocks(m).remove(k),
{ assert(blocks(m.remove(k)) =~= blocks(m).remove(k)); }
/// what fits says of one block
proof fn marked<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K)
    requires fits(m, s, S, E, o), m.dom().contains(k),
    ensures o.contains(k), s.contains(st(m, k)), s.contains(en(m, k)), st(m, k) != en(m, k), bef(s, st(m, k), en(m, k)), bef(s, S, st(m, k)), bef(s, en(m, k), E),
{}
proof fn bounded<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>)
    requires fits(m, s, S, E, o),
    ensures s.contains(S), s.contains(E), bef(s, S, E), s.no_duplicates(), o.no_duplicates(), forall|k: K| #[trigger] o.contains(k) <==> m.dom().contains(k),
{}
/// those said yes of are kept as they are
spec fn chosen<K, F>(m0: Items<K, F>, m1: Items<K, F>, calls: Seq<(K, bool)>, n: int) -> bool {
    &&& forall|k: K| #[trigger] m1.dom().contains(k) <==> said(calls, n, k, true)
    &&& forall|k: K| #[trigger] m1.dom().contains(k) ==> m0.dom().contains(k) && m1[k] == m0[k]
}
impl<K, F> DynamicList<K, F> {
    /// what there is under each key
    spec fn items(&self) -> Items<K, F> { self.inner.items@ }
    spec fn blocks(&self) -> Blocks<K> { blocks(self.items()) }
    /// the node it is in
    spec fn home(&self) -> int { self.inner.containing_node.id() }
    spec fn first(&self) -> int { self.list_start_marker.id() }
    spec fn last(&self) -> int { self.list_end_marker.id() }
    /// the keys, in the order of their blocks
    spec fn order(&self, w: World) -> Seq<K> { choose|o: Seq<K>| fits(self.blocks(), w.kids(self.home()), self.first(), self.last(), o) }
    spec fn shows(&self, w: World, o: Seq<K>) -> bool { fits(self.blocks(), w.kids(self.home()), self.first(), self.last(), o) }
    spec fn good(&self, w: World) -> bool {
        &&& w.tidy()
        &&& self.shows(w, self.order(w))
        &&& self.home() < w.next@
        &&& self.inner.containing_node is Fake ==> is_frag(self.home())
        // each future shows what it renders in its own block
        &&& forall|k: K| #[trigger] self.items().dom().contains(k) ==> self.items()[k].task.at() == en(self.blocks(), k)
    }
    /// where it is, what is around it and in the blocks that stay: all as before
    spec fn frame(&self, w0: World, to: Self, w1: World) -> bool {
        &&& to.home() == self.home() && to.first() == self.first() && to.last() == self.last()
        &&& to.list_start_marker == self.list_start_marker && to.list_end_marker == self.list_end_marker && to.inner.containing_node == self.inner.containing_node
        &&& forall|n: int| n != self.home() ==> #[trigger] w1.kids(n) == w0.kids(n)
        &&& framed(self.blocks(), w0.kids(self.home()), to.blocks(), w1.kids(self.home()), self.first(), self.last())
        &&& w1.next@ >= w0.next@
    }
    proof fn shown(&self, w: World, o: Seq<K>)
        requires self.shows(w, o),
        ensures self.order(w) == o, self.shows(w, self.order(w)),
    {
        fits_unique(self.blocks(), w.kids(self.home()), self.first(), self.last(), o, self.order(w));
    }
//@fn dl DynamicList::insert
//@opt self=mut;; opt=map,and_then;; addparam=w: &mut World;; world=insert_before,remove_child;; expr=Comment::new()->Comment::new(w)
//@spec
    requires old(self).good(*old(w)),
    ensures
        final(self).good(*final(w)), // [L01]
        final(self).order(*final(w)) == o_put(old(self).order(*old(w)), key, deref_opt(before)), // [L01]
        r == old(self).items().dom().contains(key), // [L01]
        final(self).items().dom().contains(key), final(self).items()[key].task.fut() == future, // [L01]
        final(self).items() == old(self).items().insert(key, final(self).items()[key]), // [L01]
        old(self).frame(*old(w), *final(self), *final(w)), // [L01]
        forall|x: int| !#[trigger] within(final(self).blocks(), final(w).kids(final(self).home()), key, x), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    proof { bounded(m, s0, S, E, o); }
    let ghost b = deref_opt(before);
//@before container.insert_before(&end_marker
    let ghost w1 = *w;
    let ghost v = Block { st: start_marker.id(), en: end_marker.id() };
    let ghost a = spot(m, E, b);
    proof {
        tidy_made(w0, w1);
        assert(w1.kids(c) == s0);
        assert(after.id() == a);
        if let Some(k) = b { if m.dom().contains(k) { marked(m, s0, S, E, o, k); } }
        assert(s0.contains(a));
        cut_rank(s0, v.en);
    }
//@after container.insert_before(&end_marker
    let ghost w2 = *w;
    proof {
        tidy_placed(w1, c, v.en, Some(a), w2);
        place_rank(s0, v.en, Some(a));
        cut_rank(w2.kids(c), v.st);
    }
//@after container.insert_before(&start_marker
    let ghost w3 = *w;
    proof {
        tidy_placed(w2, c, v.st, Some(v.en), w3);
        assert(w3.kids(c) == with_markers(s0, a, v));
        assert forall|n: int| n != c implies #[trigger] w3.kids(n) == w0.kids(n) by {
            assert(w1.kids(n) == w0.kids(n)); assert(w1.kids(n).no_duplicates()); assert(w2.kids(n).no_duplicates());
            cut_rank(w1.kids(n), v.en); cut_rank(w2.kids(n), v.st);
        }
        if m.dom().contains(key) { put_again(m, s0, S, E, o, key, v, b); }
        else { put_new(m, s0, S, E, o, key, v, b); }
    }
//@before drop(task)
    proof {
        marked(m, s0, S, E, o, key);
        place_rank(s0, v.en, Some(a)); place_rank(place(s0, v.en, Some(a)), v.st, Some(v.en));
        cut_rank(w3.kids(c), st(m, key));
    }
//@after remove_child(&start_marker, w)
    let ghost w4 = *w;
    proof { tidy_cut(w3, c, st(m, key), w4); }
//@after remove_child(&end_marker, w)
    proof {
        tidy_cut(w4, c, en(m, key), *w);
        assert forall|n: int| n != c implies #[trigger] w.kids(n) == w0.kids(n) by { assert(w4.kids(n) == w3.kids(n)); assert(w3.kids(n) == w0.kids(n)); }
    }
//@end
    proof {
        blocks_with(g0.items(), key, self.items()[key]);
        assert(self.blocks() == m.insert(key, v));
        self.shown(*w, o_put(o, key, b));
        assert forall|k: K| #[trigger] self.items().dom().contains(k) implies self.items()[k].task.at() == en(self.blocks(), k) by { if k != key { assert(g0.items().dom().contains(k)); } }
    }
//@endfn
//@fn dl DynamicList::remove
//@opt self=mut;; generics=;; where=;; param=key: &K;; addparam=w: &mut World;; world=remove_child
//@spec
    requires old(self).good(*old(w)),
    ensures
        final(self).good(*final(w)), // [L01]
        final(self).order(*final(w)) == cut(old(self).order(*old(w)), *key), // [L01]
        r == old(self).items().dom().contains(*key), // [L01]
        final(self).items() == old(self).items().remove(*key), // [L01]
        old(self).frame(*old(w), *final(self), *final(w)), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    proof { bounded(m, s0, S, E, o); }
//@before drop(task)
    proof {
        marked(m, s0, S, E, o, *key);
        cut_rank(s0, st(m, *key));
    }
//@after remove_child(&start_marker, w)
    let ghost w4 = *w;
    proof { tidy_cut(w0, c, st(m, *key), w4); }
//@after remove_child(&end_marker, w)
    proof {
        tidy_cut(w4, c, en(m, *key), *w);
        assert forall|n: int| n != c implies #[trigger] w.kids(n) == w0.kids(n) by { assert(w4.kids(n) == w0.kids(n)); }
        take_out(m, s0, S, E, o, *key);
    }
//@end
    proof {
        blocks_without(g0.items(), *key);
        if !__r { cut_rank(o, *key); framed_same(m, s0, S, E); assert(g0.items().remove(*key) =~= g0.items()); }
        self.shown(*w, cut(o, *key));
    }
//@endfn
//@fn dl DynamicList::contains_key
//@opt generics=;; where=;; param=key: &K
//@spec
    ensures r == self.items().dom().contains(*key), // [L01]
//@endfn
//@fn dl DynamicList::move_before
//@opt opt=map,and_then;; generics=;; where=;; param=to_move: &K;; param=before: Option<&K>;; addparam=w: &mut World;; world=move_nodes_before
//@spec
    requires self.good(*old(w)), self.items().dom().contains(*to_move),
    ensures
        self.good(*final(w)), // [L01]
        self.order(*final(w)) == o_put(self.order(*old(w)), *to_move, deref_opt(before)), // [L01]
        self.frame(*old(w), *self, *final(w)), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    proof { bounded(m, s0, S, E, o); }
    let ghost b = deref_opt(before); let ghost k = *to_move;
    let ghost a = spot(m, E, b);
    proof {
        marked(m, s0, S, E, o, k);
        if let Some(x) = b { if m.dom().contains(x) { marked(m, s0, S, E, o, x); if x != k { apart(m, s0, S, E, o, x, k); } } }
    }
//@return 0
    proof { framed_same(m, s0, S, E); assert(o_put(o, k, b) == o); }
//@before move_nodes_before
    proof {
        assert(w0.home(st(m, k)) == c);
        assert(after.id() == a);
        same_idx(s0, a, st(m, k));
        carry_ok(m, s0, S, E, o, k, b);
        assert(w0.tidy());
        assert(!s0.contains(c)) by { if s0.contains(c) { assert(w0.kids(c).contains(c)); } }
    }
//@end
    proof {
        carry(m, s0, S, E, o, k, b, w.kids(c));
        self.shown(*w, o_put(o, k, b));
    }
//@endfn
//@fn dl DynamicList::swap
//@opt generics=;; where=;; param=key_1: &K;; param=key_2: &K;; addparam=w: &mut World;; world=move_nodes_before,next_sibling;; call=std::ptr::eq->vx_same;; call=eq->vx_same
//@spec
    requires self.good(*old(w)), self.items().dom().contains(*key_1), self.items().dom().contains(*key_2),
    ensures
        self.good(*final(w)), // [L01]
        self.order(*final(w)) == exchanged(self.order(*old(w)), *key_1, *key_2), // [L01]
        self.frame(*old(w), *self, *final(w)), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    proof { bounded(m, s0, S, E, o); }
    let ghost k = *key_1; let ghost l = *key_2;
    proof {
        marked(m, s0, S, E, o, k); marked(m, s0, S, E, o, l);
        if k != l { apart(m, s0, S, E, o, k, l); }
        assert(!s0.contains(c)) by { if s0.contains(c) { assert(w0.kids(c).contains(c)); } }
        assert(w0.home(st(m, k)) == c); assert(w0.home(st(m, l)) == c);
    }
//@return 0
    proof { framed_same(m, s0, S, E); exchanged_self(o, k); }
//@after item_1.end_marker.next_sibling
    proof {
        has_next(s0, en(m, k), E);
        assert(after_key_1 is Some);
    }
    let ghost a = after_key_1.unwrap().id();
    proof {
        same_idx(s0, a, st(m, k));
        if a == st(m, l) { carry_ok(m, s0, S, E, o, l, Some(k)); }
        else { carry_ok(m, s0, S, E, o, k, Some(l)); }
    }
//@return 1
    proof {
        swap_next(m, s0, S, E, o, k, l, w.kids(c));
        self.shown(*w, exchanged(o, k, l));
    }
//@after Some(&item_2.start_marker), w
    let ghost w1 = *w;
    proof {
        let t = w1.kids(c);
        assert(t.contains(st(m, l))); assert(t.contains(en(m, l)));
        assert(w1.home(st(m, l)) == c);
        assert(!t.contains(c)) by { if t.contains(c) { assert(w1.kids(c).contains(c)); } }
        swap_far_ok(m, s0, S, E, o, k, l, a, t);
    }
//@end
    proof {
        swap_far(m, s0, S, E, o, k, l, a, w1.kids(c), w.kids(c));
        self.shown(*w, exchanged(o, k, l));
        assert forall|n: int| n != c implies #[trigger] w.kids(n) == w0.kids(n) by { assert(w1.kids(n) == w0.kids(n)); }
    }
//@endfn
//@fn dl DynamicList::retain
//@opt self=mut;; retain;; generics=<P: VxPred<K>>;; param=func: &mut P;; fnvar=func;; attr=#[verifier::exec_allows_no_decreases_clause];; addparam=w: &mut World;; world=remove_child
//@spec
    requires old(self).good(*old(w)), old(func).inv(),
    ensures
        final(self).good(*final(w)), // [L01]
        final(func).inv(), final(func).of() == old(func).of(),
        final(func).calls().len() >= old(func).calls().len(), final(func).calls().take(old(func).calls().len() as int) == old(func).calls(),
        // every key is asked about, once, and those it is said yes of stay, in their order
        polled(final(func).calls(), old(func).calls().len() as int, old(self).order(*old(w))), // [L01]
        chosen(old(self).items(), final(self).items(), final(func).calls(), old(func).calls().len() as int), // [L01]
        forall|x: K, y: K| #[trigger] bef(final(self).order(*final(w)), x, y) <==> bef(old(self).order(*old(w)), x, y) && final(self).items().dom().contains(x) && final(self).items().dom().contains(y), // [L01]
        old(self).frame(*old(w), *final(self), *final(w)), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged); hide(said);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    proof { bounded(m, s0, S, E, o); }
    let ghost c0 = func.calls(); let ghost of0 = func.of();
    let ghost mut oc = o;
//@before let mut __t
    proof { framed_same(m, s0, S, E); said_none(c0); assert(c0.take(c0.len() as int) =~= c0); }
//@loop 0
    invariant
        func.inv(), func.of() == of0, func.calls().len() >= c0.len(), func.calls().take(c0.len() as int) == c0,
        container.id() == c, w.tidy(), w.next == w0.next,
        fits(blocks(items@), w.kids(c), S, E, oc),
        framed(m, s0, blocks(items@), w.kids(c), S, E),
        forall|n: int| n != c ==> #[trigger] w.kids(n) == w0.kids(n),
        m == blocks(g0.items()), c == g0.home(), s0 == w0.kids(c), S == g0.first(), E == g0.last(), o.no_duplicates(),
        forall|k: K| #[trigger] o.contains(k) <==> m.dom().contains(k),
        forall|k: K| #[trigger] items@.dom().contains(k) ==> g0.items().dom().contains(k) && items@[k] == g0.items()[k],
        forall|x: K, y: K| #[trigger] bef(oc, x, y) <==> bef(o, x, y) && items@.dom().contains(x) && items@.dom().contains(y),
        __t.left@.no_duplicates(),
        forall|k: K| #[trigger] o.contains(k) <==> __t.left@.contains(k) || said(func.calls(), c0.len() as int, k, true) || said(func.calls(), c0.len() as int, k, false),
        forall|i: int| c0.len() <= i < func.calls().len() ==> !__t.left@.contains((#[trigger] func.calls()[i]).0),
        forall|i: int, j: int| c0.len() <= i < j < func.calls().len() ==> (#[trigger] func.calls()[i]).0 != (#[trigger] func.calls()[j]).0,
        forall|k: K| #[trigger] items@.dom().contains(k) <==> __t.left@.contains(k) || said(func.calls(), c0.len() as int, k, true),
    ensures
        forall|k: K| !#[trigger] __t.left@.contains(k),
//@loopstart 0
    let ghost w1 = *w;
    let ghost it1 = items@;
    let ghost l1 = __t.left@;
    let ghost q1 = func.calls();
    proof {
        if l1.len() > 0 {
            idx_at(l1, 0);
            assert(it1.dom().contains(l1[0]));
            assert(blocks(it1).dom().contains(l1[0]));
            marked(blocks(it1), w1.kids(c), S, E, oc, l1[0]);
            cut_rank(w1.kids(c), st(blocks(it1), l1[0]));
            assert(l1.drop_first() =~= l1.remove(0)); 
            cut_rank(l1, l1[0]);
            cut_first(l1);
        }
    }
//@before =break;
    proof { none_in(__t.left@); }
//@after remove_child(&value.start_marker, w)
    let ghost w4 = *w;
    proof { tidy_cut(w1, c, st(blocks(it1), *key), w4); }
//@after remove_child(&value.end_marker, w)
    proof { tidy_cut(w4, c, en(blocks(it1), *key), *w); }
//@loopend 0
    proof {
        let k = l1[0];
        let q = func.calls();
        said_more(q1, c0.len() as int, (k, __keep));
        assert(q == q1.push((k, __keep)));
        assert(q.take(c0.len() as int) =~= q1.take(c0.len() as int));
        assert forall|i: int| c0.len() <= i < q.len() implies !__t.left@.contains((#[trigger] q[i]).0) by { if i < q1.len() { assert(q[i] == q1[i]); } }
        assert forall|i: int, j: int| c0.len() <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(q[i] == q1[i]); if j < q1.len() { assert(q[j] == q1[j]); } else { assert(!__t.left@.contains(q[i].0)); assert(l1.contains(k)); } }
        if !__keep {
            blocks_without(it1, k);
            take_out(blocks(it1), w1.kids(c), S, E, oc, k);
            framed_twice(m, s0, blocks(it1), w1.kids(c), blocks(items@), w.kids(c), S, E);
            bounded(blocks(it1), w1.kids(c), S, E, oc);
            cut_rank(oc, k);
            oc = cut(oc, k);
            assert(!said(q1, c0.len() as int, k, true)) by { reveal(said); }
        }
    }
//@end
    proof {
        self.shown(*w, oc);
    }
//@endfn
//@fn dl DynamicList::new
//@opt addparam=w: &mut World;; expr=Comment::new()->Comment::new(w);; expr=DocumentFragment::new()->DocumentFragment::new(w);; world=append_child;; call=RefCell::new->vx_cell;; droplit=Self|detachment_blocker
//@spec
    requires old(w).tidy(),
    ensures
        r.good(*final(w)), // [L01]
        r.order(*final(w)) == Seq::<K>::empty(), // [L01]
        r.items() == Map::<K, Stored<F>>::empty(), // [L01]
        forall|n: int| n < old(w).next@ ==> #[trigger] final(w).kids(n) == old(w).kids(n), // [L01]
        r.inner.containing_node is Fake, // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost w0 = *w;
//@before frag.append_child(&list_start_marker
    let ghost w1 = *w;
    let ghost f = frag.id(); let ghost s = list_start_marker.id(); let ghost e = list_end_marker.id();
    proof {
        tidy_made(w0, w1);
        assert(w1.kids(f) == Seq::<int>::empty());
        none_in(Seq::<int>::empty());
        assert(!w1.kids(f).contains(s));
        assert(Seq::<int>::empty().no_duplicates()) by { reveal(Seq::no_duplicates); }
        cut_rank(w1.kids(f), s);
    }
//@after frag.append_child(&list_start_marker
    let ghost w2 = *w;
    proof {
        tidy_placed(w1, f, s, None, w2);
        assert(w2.kids(f) == place(Seq::<int>::empty(), s, None));
        place_rank(Seq::<int>::empty(), s, None);
        assert(!w2.kids(f).contains(e)) by { none_in(Seq::<int>::empty()); }
        cut_rank(w2.kids(f), e);
    }
//@after frag.append_child(&list_end_marker
    proof {
        tidy_placed(w2, f, e, None, *w);
        place_rank(w2.kids(f), e, None);
        assert forall|n: int| n < w0.next@ implies #[trigger] w.kids(n) == w0.kids(n) by {
            assert(w1.kids(n) == w0.kids(n)); assert(w1.kids(n).no_duplicates()); assert(w2.kids(n).no_duplicates());
            cut_rank(w1.kids(n), s); cut_rank(w2.kids(n), e);
        }
        assert(bef(w.kids(f), s, e));
        assert(w.kids(f).no_duplicates());
        fits_none::<K>(w.kids(f), s, e);
    }
//@end
    proof {
        assert(__r.blocks() =~= Map::<K, Block>::empty());
        assert(__r.items() =~= Map::<K, Stored<F>>::empty());
        __r.shown(*w, Seq::<K>::empty());
    }
//@endfn
//@fn dl DynamicList::render
//@opt self=mut;; await;; guardfn=vx_scope();; addparam=w: &mut World;; expr=pending::<()>()->pending();; expr=Comment::new()->Comment::new(w);; world=poll,insert_before,next_sibling,parent_node
//@spec
    requires old(self).good(*old(w)), old(self).inner.containing_node is Fake,
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    let ghost mut w1 = w0; let ghost mut w2 = w0; let ghost mut w3 = w0; let ghost mut x = 0int; let ghost mut p = 0int; let ghost mut a: Option<int> = None; let ghost mut s = s0; let ghost mut b: Option<int> = None;
    proof { bounded(m, s0, S, E, o); assert(is_frag(c)); }
//@before position_fut).poll(
    proof { w1 = *w; x = position_marker.id(); tidy_made(w0, w1); assert forall|n: int| !(#[trigger] w1.kids(n)).contains(x) by { if w1.kids(n).contains(x) { assert(w0.kids(n).contains(x)); } } }
//@after position_fut).poll(
    proof {
        w2 = *w;
        let (p0, a0) = choose|p0: int, a0: Option<int>| put_in(w1, w2, p0, x, a0);
        p = p0; a = a0;
        s = w2.kids(p);
        assert(put_in(w1, w2, p, x, a));
        assert(w1.kids(p).no_duplicates());
        assert forall|n: int| #[trigger] w2.kids(n) == (if n == p { place(cut(w1.kids(n), x), x, a) } else { cut(w1.kids(n), x) }) by { assert(w1.kids(n).no_duplicates()); cut_rank(w1.kids(n), x); }
        if a is Some { assert(a.unwrap() != x); }
        tidy_placed(w1, p, x, a, w2);
        place_rank(w1.kids(p), x, a);
        assert(s.contains(x));
        assert(w2.kids(c) == s0);
        assert(s.no_duplicates());
        follows(s, x);
    }
//@before real_containing_node.insert_before(
    proof { b = if idx(s, x) + 1 < s.len() { Some(s[idx(s, x) + 1]) } else { None }; }
//@after real_containing_node.insert_before(
    proof {
        w3 = *w;
        let all = |y: int| w2.kids(c).contains(y);
        assert(p != c);
        tidy_poured(w2, w3, p, c, b);
        assert forall|y: int| s0.contains(y) implies !#[trigger] s.contains(y) by { assert(w2.kids(c).contains(y)); assert(w2.home(y) == c); if s.contains(y) { assert(w2.kids(p).contains(y)); } }
        pour(m, s0, S, E, o, s, b, w3.kids(p));
        follows(s, x);
        assert forall|y: int| #[trigger] s.contains(y) && y != x implies (bef(w3.kids(p), y, S) <==> bef(s, y, x)) by { assert(!s0.contains(y)); assert(all(S)); assert(!all(y)); look(bef(s, y, x)); look(bef(s, x, y)); total(s, x, y); look(bef(w3.kids(p), y, S)); if b is Some { look(bef(s, y, b.unwrap())); look(bef(s, b.unwrap(), y)); } }
    }
//@before self.executor.run(
    proof {
        self.shown(*w, o);
        // when it is being rendered, it is where it was rendered, shows the same, and what was there is around it
        assert(self.good(*w) && self.order(*w) == o && self.items() == g0.items()); // [L01]
        assert(self.home() == p); // [L01]
        assert(kept(m, s0, self.blocks(), w.kids(p))); // [L01]
        assert(forall|y: int, z: int| w1.kids(p).contains(y) && w1.kids(p).contains(z) ==> #[trigger] bef(w.kids(p), y, z) == bef(w1.kids(p), y, z)); // [L01]
        assert(forall|y: int| #[trigger] w1.kids(p).contains(y) ==> (bef(w.kids(p), y, S) <==> left(w1.kids(p), y, a))); // [L01]
        assert(forall|n: int| n != p && n != c ==> #[trigger] w.kids(n) == w0.kids(n)); // [L01]
    }
//@endfn
//@fn dl DynamicList::render
//@opt closure=0;; name=vx_leave;; self=mut;; addparam=stored_fragment: DocumentFragment;; addparam=w: &mut World;; world=move_nodes_before
//@spec
    requires old(self).good(*old(w)), is_frag(stored_fragment.id()), stored_fragment.id() < old(w).next@, old(self).home() != stored_fragment.id(),
    ensures
        final(self).good(*final(w)), // [L01]
        final(self).order(*final(w)) == old(self).order(*old(w)), // [L01]
        final(self).items() == old(self).items(), // [L01]
        final(self).inner.containing_node is Fake, final(self).home() == stored_fragment.id(), // [L01]
        relocated(*old(w), *final(w), stored_fragment.id(), old(self).first(), old(self).last(), None), // [L01]
        kept(old(self).blocks(), old(w).kids(old(self).home()), old(self).blocks(), final(w).kids(stored_fragment.id())), // [L01]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fits); hide(framed); hide(within); hide(exchanged);
    let ghost g0 = *self; let ghost w0 = *w; let ghost o = g0.order(w0); let ghost m = g0.blocks(); let ghost c = g0.home(); let ghost s0 = w0.kids(c); let ghost S = g0.first(); let ghost E = g0.last();
    let ghost f = stored_fragment.id();
    proof {
        bounded(m, s0, S, E, o);
        assert(w0.home(S) == c);
        assert(!s0.contains(f));
    }
//@end
    proof {
        assert(shifted(s0, w0.kids(f), span(s0, S, E), None, w.kids(f)));
        gathered(m, s0, S, E, o, w0.kids(f), w.kids(f));
        self.shown(*w, o);
    }
//@endfn
}
impl<K, F> DynamicList<K, F> {
    /// what good says of the keys
    proof fn listed(&self, w: World)
        requires self.good(w),
        ensures self.order(w).no_duplicates(), forall|k: K| #[trigger] self.order(w).contains(k) <==> self.items().dom().contains(k),
    { bounded(self.blocks(), w.kids(self.home()), self.first(), self.last(), self.order(w)); assert(forall|k: K| self.blocks().dom().contains(k) <==> self.items().dom().contains(k)); }
}
} // verus!
