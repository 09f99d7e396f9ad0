//@file ct async_ui_web_core/src/combinators/common/tuple.rs
verus! {
//@const ct LEN
//@opt pick=[0,1,].len();; asfn=();; name=common_len
//@spec
    ensures r == 2,
//@endfn
//@struct ct Futures
//@opt pick=Futures<A0,A1,>;; attr=#[verifier::reject_recursive_types(A0)] #[verifier::reject_recursive_types(A1)]
//@endfn
//@struct ct Combine2
//@opt generics=<B, O, A0: Future<ReadinessArray<2>>, A1: Future<ReadinessArray<2>>>;; where=where B: TupleMaybeReturn<A0::Output, O>, B: TupleMaybeReturn<A1::Output, O>, B: TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O>;; type={common2::LEN}->2;; expr=common2::LEN->2;; type=common2::Futures<A0,A1,>->Futures<A0,A1>;; type=WakerArray<{common2::LEN}>->WakerArray<2>;; attr=#[verifier::reject_recursive_types(B)] #[verifier::reject_recursive_types(O)] #[verifier::reject_recursive_types(A0)] #[verifier::reject_recursive_types(A1)]
//@endfn
impl<B, O, A0: Future<ReadinessArray<2>>, A1: Future<ReadinessArray<2>>> Combine2<B, O, A0, A1> where B: TupleMaybeReturn<A0::Output, O>, B: TupleMaybeReturn<A1::Output, O>, B: TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O> {
    spec fn out_some(&self, i: int) -> bool { if i == 0 { self.futures.A0.out().is_some() } else if i == 1 { self.futures.A1.out().is_some() } else { false } }
    spec fn item_some(&self, i: int) -> bool { if i == 0 { self.items.0@.is_some() } else if i == 1 { self.items.1@.is_some() } else { false } }
    #[verifier::opaque]
    spec fn polls(&self, i: int) -> nat { if i == 0 { self.futures.A0.polls() } else if i == 1 { self.futures.A1.polls() } else { 0 } }
    #[verifier::opaque]
    spec fn home(&self, i: int, d: DomContext, t: int) -> bool { if i == 0 { self.futures.A0.home(d, t) } else if i == 1 { self.futures.A1.home(d, t) } else { true } }
    /// child i has completed with a value that is kept
    spec fn kept(&self, i: int) -> bool {
        &&& self.item_some(i) && self.out_some(i)
        &&& if i == 0 { <B as TupleMaybeReturn<A0::Output, O>>::decide(0, self.futures.A0.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A0::Output, O>>::StoredItem>::Continue(self.items.0@.unwrap()) } else if i == 1 { <B as TupleMaybeReturn<A1::Output, O>>::decide(1, self.futures.A1.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem>::Continue(self.items.1@.unwrap()) } else { true }
    }
    /// child i has completed with what its combinator ends with
    #[verifier::opaque]
    spec fn breaks(&self, i: int, out: O) -> bool {
        &&& self.out_some(i)
        &&& if i == 0 { <B as TupleMaybeReturn<A0::Output, O>>::decide(0, self.futures.A0.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A0::Output, O>>::StoredItem>::Break(out) } else if i == 1 { <B as TupleMaybeReturn<A1::Output, O>>::decide(1, self.futures.A1.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem>::Break(out) } else { true }
    }
    /// a slot holds a value exactly if it is marked filled
    #[verifier::opaque]
    spec fn slots_ok(&self) -> bool { forall|i: int| 0 <= i < 2 ==> (#[trigger] self.filled@[i]) == self.item_some(i) }
    /// child i is running and its slot is empty
    spec fn running(&self, i: int) -> bool { !self.item_some(i) && !self.out_some(i) }
    #[verifier::opaque]
    spec fn child_ok(&self, i: int) -> bool { if self.filled@[i] { self.kept(i) } else { self.running(i) } }
    /// not finished
    spec fn live(&self) -> bool {
        &&& forall|i: int| 0 <= i < 2 ==> #[trigger] self.child_ok(i)
        &&& self.pending == falses(self.filled@)
        &&& self.pending > 0
    }
    /// has handed out the outputs of all its children
    spec fn collected(&self) -> bool {
        &&& self.pending == 0
        &&& forall|i: int| 0 <= i < 2 ==> !#[trigger] self.filled@[i] && !self.item_some(i)
    }
    spec fn at_home(&self, dom: DomContext) -> bool {
        forall|i: int| 0 <= i < 2 ==> #[trigger] self.home(i, DomContext::Child { parent: &dom, index: i as u32 }, self.wakers.wakers@[i].task())
    }
    spec fn due(&self, list: Seq<usize>, k: int, i: int) -> bool { !self.filled@[i] && list.take(k).contains(i as usize) }
    /// child i of s is as it was, but for having been polled if it was due
    spec fn polled_up_to(&self, o: Self, list: Seq<usize>, k: int) -> bool {
        forall|i: int| 0 <= i < 2 ==> #[trigger] self.polls(i) == o.polls(i) + if o.due(list, k, i) { 1nat } else { 0 }
    }
    /// children whose place in the list is before k have been polled, no others, and the child at k decided with out
    #[verifier::opaque]
    spec fn decided(&self, o: Self, list: Seq<usize>, out: O) -> bool {
        exists|k: int| #[trigger] self.decided_at(o, list, out, k)
    }
    #[verifier::opaque]
    spec fn decided_at(&self, o: Self, list: Seq<usize>, out: O, k: int) -> bool {
        &&& 0 <= k < list.len()
        &&& !o.filled@[list[k] as int] && !self.filled@[list[k] as int]
        &&& self.breaks(list[k] as int, out)
        &&& forall|i: int| 0 <= i < 2 && i != list[k] ==> #[trigger] self.child_ok(i)
        &&& self.polled_up_to(o, list, k + 1)
    }
    /// every child completed with a value that is kept, and these were handed out, each in its place
    spec fn completed(&self, o: Self, list: Seq<usize>, out: O) -> bool {
        exists|items: (<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,)| #[trigger] self.completed_with(o, list, out, items)
    }
    spec fn completed_with(&self, o: Self, list: Seq<usize>, out: O, items: (<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,)) -> bool {
        &&& <B as TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O>>::combined(out, items)
        &&& self.futures.A0.out().is_some() && <B as TupleMaybeReturn<A0::Output, O>>::decide(0, self.futures.A0.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A0::Output, O>>::StoredItem>::Continue(items.0)
        &&& self.futures.A1.out().is_some() && <B as TupleMaybeReturn<A1::Output, O>>::decide(1, self.futures.A1.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem>::Continue(items.1)
        &&& forall|i: int| 0 <= i < 2 ==> !(#[trigger] self.filled@[i]) && !self.item_some(i)
        &&& self.pending == 0
        &&& self.polled_up_to(o, list, list.len() as int)
    }
    #[verifier::opaque]
    spec fn same_homes(&self, o: Self) -> bool {
        &&& self.wakers == o.wakers
        &&& forall|i: int, d: DomContext, t: int| 0 <= i < 2 ==> #[trigger] self.home(i, d, t) == o.home(i, d, t)
    }
    
    /// what a loop over the awake children keeps up, k of them in
    #[verifier::opaque]
    spec fn inv(o: Self, s: Self, list: Seq<usize>, k: int) -> bool {
        &&& forall|i: int| 0 <= i < 2 ==> #[trigger] s.child_ok(i)
        &&& s.pending == falses(s.filled@)
        &&& s.polled_up_to(o, list, k)
        &&& s.same_homes(o)
        &&& forall|j: int| k <= j < list.len() ==> s.filled@[#[trigger] list[j] as int] == o.filled@[list[j] as int]
    }
    /// what does not change meanwhile
    #[verifier::opaque]
    spec fn settled(o: Self, list: Seq<usize>, dom: DomContext) -> bool {
        &&& list.no_duplicates()
        &&& forall|j: int| 0 <= j < list.len() ==> #[trigger] list[j] < 2
        &&& o.at_home(dom)
    }
    proof fn inv_start(o: Self, s: Self, list: Seq<usize>)
        requires o.live(), s.futures == o.futures, s.items == o.items, s.filled == o.filled, s.pending == o.pending, s.wakers == o.wakers,
        ensures Self::inv(o, s, list, 0),
    {
        reveal(Combine2::inv); reveal(Combine2::same_homes); Self::same(o, s);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] s.child_ok(i) by { assert(o.child_ok(i)); }
        assert(s.polled_up_to(o, list, 0));
    }
    proof fn inv_at(o: Self, s: Self, list: Seq<usize>, k: int, dom: DomContext)
        requires Self::inv(o, s, list, k), Self::settled(o, list, dom), 0 <= k < list.len(),
        ensures
            list[k] < 2,
            s.filled@[list[k] as int] == o.filled@[list[k] as int],
            !s.filled@[list[k] as int] ==> s.pending > 0,
            !s.filled@[list[k] as int] ==> ((list[k] == 0 ==> s.futures.A0.out().is_none() && s.items.0@.is_none() && s.futures.A0.home(DomContext::Child { parent: &dom, index: 0u32 }, s.wakers.wakers@[0].task())) && (list[k] == 1 ==> s.futures.A1.out().is_none() && s.items.1@.is_none() && s.futures.A1.home(DomContext::Child { parent: &dom, index: 1u32 }, s.wakers.wakers@[1].task()))),
    {
        reveal(Combine2::inv); reveal(Combine2::settled); reveal(Combine2::child_ok); reveal(Combine2::home); reveal(Combine2::same_homes);
        let x = list[k] as int;
        assert(s.child_ok(x));
        if !s.filled@[x] { falses_set(s.filled@, x); }
        let d = DomContext::Child { parent: &dom, index: x as u32 };
        assert(o.home(x, d, o.wakers.wakers@[x].task()));
        assert(s.home(x, d, o.wakers.wakers@[x].task()));
    }
    proof fn inv_skip(o: Self, a: Self, b: Self, list: Seq<usize>, k: int, dom: DomContext)
        requires
            Self::inv(o, a, list, k), 0 <= k < list.len(), Self::settled(o, list, dom),
            a.filled@[list[k] as int], b.futures == a.futures, b.items == a.items, b.filled@ == a.filled@, b.pending == a.pending, b.wakers == a.wakers,
        ensures Self::inv(o, b, list, k + 1),
    {
        reveal(Combine2::inv); reveal(Combine2::settled); Self::same(a, b); Self::keep_homes(o, a, b);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] b.child_ok(i) by { assert(a.child_ok(i)); }
        Self::step(o, a, b, list, k);
    }
    proof fn inv_step(o: Self, a: Self, b: Self, list: Seq<usize>, k: int, dom: DomContext)
        requires
            Self::inv(o, a, list, k), 0 <= k < list.len(), Self::settled(o, list, dom),
            !a.filled@[list[k] as int],
            Self::arm(a.futures, a.items, b.futures, b.items, list[k] as int, b.filled@[list[k] as int]),
            b.filled@ =~= a.filled@.update(list[k] as int, b.filled@[list[k] as int]),
            b.pending == a.pending - if b.filled@[list[k] as int] { 1int } else { 0 }, b.wakers == a.wakers,
        ensures Self::inv(o, b, list, k + 1),
    {
        reveal(Combine2::inv); reveal(Combine2::settled);
        let x = list[k] as int;
        falses_set(a.filled@, x);
        if !b.filled@[x] { assert(b.filled@ =~= a.filled@); }
        Self::on_arm(a, b, x);
        Self::keep_homes(o, a, b);
        Self::step(o, a, b, list, k);
    }
    proof fn inv_brk(o: Self, a: Self, b: Self, list: Seq<usize>, k: int, dom: DomContext, out: O)
        requires
            Self::inv(o, a, list, k), 0 <= k < list.len(), Self::settled(o, list, dom),
            !a.filled@[list[k] as int],
            Self::brk(a.futures, a.items, b.futures, b.items, list[k] as int, out),
            b.filled@ == a.filled@, b.wakers == a.wakers,
        ensures b.decided(o, list, out), b.same_homes(o), b.slots_ok(),
    {
        reveal(Combine2::inv); reveal(Combine2::settled); reveal(Combine2::decided_at); reveal(Combine2::decided);
        Self::on_brk(a, b, list[k] as int, out);
        Self::keep_homes(o, a, b);
        Self::step(o, a, b, list, k);
        assert(b.decided_at(o, list, out, k));
    }
    /// child x has been polled and has not ended the combinator, nothing else has happened
    #[verifier::opaque]
    spec fn arm(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), x: int, full: bool) -> bool { if x == 0 { Self::arm0(f, p, g, q, full) } else if x == 1 { Self::arm1(f, p, g, q, full) } else { false } }
    proof fn on_arm(a: Self, b: Self, x: int)
        requires 0 <= x < 2, Self::arm(a.futures, a.items, b.futures, b.items, x, b.filled@[x]), b.filled@ == a.filled@.update(x, b.filled@[x]), forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == x { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::arm);
        if x == 0 { Self::on_arm0(a, b); } else if x == 1 { Self::on_arm1(a, b); }
    }
    /// child x has been polled and its outcome ends the combinator, nothing else has happened
    #[verifier::opaque]
    spec fn brk(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), x: int, out: O) -> bool { if x == 0 { Self::brk0(f, p, g, q, out) } else if x == 1 { Self::brk1(f, p, g, q, out) } else { false } }
    proof fn on_brk(a: Self, b: Self, x: int, out: O)
        requires 0 <= x < 2, Self::brk(a.futures, a.items, b.futures, b.items, x, out), b.filled@ == a.filled@, !a.filled@[x], forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            b.breaks(x, out), b.slots_ok(),
            forall|i: int| 0 <= i < 2 && i != x ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == x { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::brk);
        if x == 0 { Self::on_brk0(a, b, out); } else if x == 1 { Self::on_brk1(a, b, out); }
    }
    proof fn keep_homes(o: Self, a: Self, b: Self)
        requires a.same_homes(o), b.wakers == a.wakers, forall|i: int, d: DomContext, t: int| 0 <= i < 2 ==> #[trigger] b.home(i, d, t) == a.home(i, d, t),
        ensures b.same_homes(o),
    {
        reveal(Combine2::same_homes);
        assert forall|i: int, d: DomContext, t: int| 0 <= i < 2 implies #[trigger] b.home(i, d, t) == o.home(i, d, t) by { assert(b.home(i, d, t) == a.home(i, d, t)); }
    }
    proof fn same(a: Self, b: Self)
        requires a.futures == b.futures, a.items == b.items, a.filled@ == b.filled@,
        ensures
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.child_ok(i) == a.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i),
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    { reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); }
    proof fn slots(s: Self)
        requires forall|i: int| 0 <= i < 2 ==> #[trigger] s.child_ok(i),
        ensures s.slots_ok(),
    { reveal(Combine2::child_ok); reveal(Combine2::slots_ok);
        assert forall|i: int| 0 <= i < 2 implies (#[trigger] s.filled@[i]) == s.item_some(i) by { assert(s.child_ok(i)); }
    }
    #[verifier::opaque]
    spec fn arm0(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), full: bool) -> bool {
        &&& g.A0.polls() == f.A0.polls() + 1 && (forall|d: DomContext, t: int| #[trigger] g.A0.home(d, t) == f.A0.home(d, t)) && g.A1 == f.A1 && q.1 == p.1
        &&& if full { g.A0.out().is_some() && q.0@.is_some() && <B as TupleMaybeReturn<A0::Output, O>>::decide(0, g.A0.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A0::Output, O>>::StoredItem>::Continue(q.0@.unwrap()) }
            else { g.A0.out().is_none() && q.0@.is_none() }
    }
    #[verifier::opaque]
    spec fn brk0(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), out: O) -> bool {
        &&& g.A0.polls() == f.A0.polls() + 1 && (forall|d: DomContext, t: int| #[trigger] g.A0.home(d, t) == f.A0.home(d, t)) && g.A1 == f.A1 && q.1 == p.1
        &&& g.A0.out().is_some() && q.0@.is_none() && <B as TupleMaybeReturn<A0::Output, O>>::decide(0, g.A0.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A0::Output, O>>::StoredItem>::Break(out)
    }
    proof fn is_arm0(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), full: bool)
        requires Self::arm0(f, p, g, q, full),
        ensures Self::arm(f, p, g, q, 0, full),
    { reveal(Combine2::arm); }
    proof fn is_brk0(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), out: O)
        requires Self::brk0(f, p, g, q, out),
        ensures Self::brk(f, p, g, q, 0, out),
    { reveal(Combine2::brk); }
    proof fn on_arm0(a: Self, b: Self)
        requires Self::arm0(a.futures, a.items, b.futures, b.items, b.filled@[0]), b.filled@ == a.filled@.update(0, b.filled@[0]), forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == 0 { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); reveal(Combine2::arm0);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] b.child_ok(i) by { assert(a.child_ok(i)); }
    }
    proof fn on_brk0(a: Self, b: Self, out: O)
        requires Self::brk0(a.futures, a.items, b.futures, b.items, out), b.filled@ == a.filled@, !a.filled@[0], forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            b.breaks(0, out), b.slots_ok(),
            forall|i: int| 0 <= i < 2 && i != 0 ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == 0 { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); reveal(Combine2::brk0); reveal(Combine2::breaks); reveal(Combine2::slots_ok);
        assert forall|i: int| 0 <= i < 2 && i != 0 implies #[trigger] b.child_ok(i) by { assert(a.child_ok(i)); }
        assert forall|i: int| 0 <= i < 2 implies (#[trigger] b.filled@[i]) == b.item_some(i) by { assert(a.child_ok(i)); }
    }
    #[verifier::opaque]
    spec fn arm1(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), full: bool) -> bool {
        &&& g.A1.polls() == f.A1.polls() + 1 && (forall|d: DomContext, t: int| #[trigger] g.A1.home(d, t) == f.A1.home(d, t)) && g.A0 == f.A0 && q.0 == p.0
        &&& if full { g.A1.out().is_some() && q.1@.is_some() && <B as TupleMaybeReturn<A1::Output, O>>::decide(1, g.A1.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem>::Continue(q.1@.unwrap()) }
            else { g.A1.out().is_none() && q.1@.is_none() }
    }
    #[verifier::opaque]
    spec fn brk1(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), out: O) -> bool {
        &&& g.A1.polls() == f.A1.polls() + 1 && (forall|d: DomContext, t: int| #[trigger] g.A1.home(d, t) == f.A1.home(d, t)) && g.A0 == f.A0 && q.0 == p.0
        &&& g.A1.out().is_some() && q.1@.is_none() && <B as TupleMaybeReturn<A1::Output, O>>::decide(1, g.A1.out().unwrap()) == ControlFlow::<O, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem>::Break(out)
    }
    proof fn is_arm1(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), full: bool)
        requires Self::arm1(f, p, g, q, full),
        ensures Self::arm(f, p, g, q, 1, full),
    { reveal(Combine2::arm); }
    proof fn is_brk1(f: Futures<A0, A1>, p: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), g: Futures<A0, A1>, q: (MaybeUninit<<B as TupleMaybeReturn<A0::Output, O>>::StoredItem>, MaybeUninit<<B as TupleMaybeReturn<A1::Output, O>>::StoredItem>,), out: O)
        requires Self::brk1(f, p, g, q, out),
        ensures Self::brk(f, p, g, q, 1, out),
    { reveal(Combine2::brk); }
    proof fn on_arm1(a: Self, b: Self)
        requires Self::arm1(a.futures, a.items, b.futures, b.items, b.filled@[1]), b.filled@ == a.filled@.update(1, b.filled@[1]), forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == 1 { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); reveal(Combine2::arm1);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] b.child_ok(i) by { assert(a.child_ok(i)); }
    }
    proof fn on_brk1(a: Self, b: Self, out: O)
        requires Self::brk1(a.futures, a.items, b.futures, b.items, out), b.filled@ == a.filled@, !a.filled@[1], forall|i: int| 0 <= i < 2 ==> #[trigger] a.child_ok(i),
        ensures
            b.breaks(1, out), b.slots_ok(),
            forall|i: int| 0 <= i < 2 && i != 1 ==> #[trigger] b.child_ok(i),
            forall|i: int| 0 <= i < 2 ==> #[trigger] b.polls(i) == a.polls(i) + if i == 1 { 1nat } else { 0 },
            forall|i: int, d: DomContext, t: int| #[trigger] b.home(i, d, t) == a.home(i, d, t),
    {
        reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); reveal(Combine2::brk1); reveal(Combine2::breaks); reveal(Combine2::slots_ok);
        assert forall|i: int| 0 <= i < 2 && i != 1 implies #[trigger] b.child_ok(i) by { assert(a.child_ok(i)); }
        assert forall|i: int| 0 <= i < 2 implies (#[trigger] b.filled@[i]) == b.item_some(i) by { assert(a.child_ok(i)); }
    }
    proof fn step(o: Self, a: Self, b: Self, list: Seq<usize>, k: int)
        requires
            0 <= k < list.len(), list.no_duplicates(), forall|j: int| 0 <= j < list.len() ==> #[trigger] list[j] < 2,
            a.polled_up_to(o, list, k),
            forall|i: int| 0 <= i < 2 && i != list[k] ==> #[trigger] b.polls(i) == a.polls(i),
            b.polls(list[k] as int) == a.polls(list[k] as int) + if o.filled@[list[k] as int] { 0nat } else { 1 },
        ensures b.polled_up_to(o, list, k + 1),
    {
        let x = list[k];
        assert(list.take(k + 1)[k] == x);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] b.polls(i) == o.polls(i) + if o.due(list, k + 1, i) { 1nat } else { 0 } by {
            assert(a.polls(i) == o.polls(i) + if o.due(list, k, i) { 1nat } else { 0 });
            if i == x {
                assert(!list.take(k).contains(x)) by {
                    if list.take(k).contains(x) { let j = list.take(k).index_of(x); assert(list[j] == x); }
                }
            } else {
                if list.take(k).contains(i as usize) { let j = list.take(k).index_of(i as usize); assert(list.take(k + 1)[j] == i as usize); }
                if list.take(k + 1).contains(i as usize) { let j = list.take(k + 1).index_of(i as usize); assert(j != k); assert(list.take(k)[j] == i as usize); }
            }
        }
    }
}
} // verus!
verus! {
impl<B, O, A0: Future<ReadinessArray<2>>, A1: Future<ReadinessArray<2>>> Combine2<B, O, A0, A1> where B: TupleMaybeReturn<A0::Output, O>, B: TupleMaybeReturn<A1::Output, O>, B: TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O> {
//@fn ct Combine2::Future::poll
//@opt pin;; assertpanics;; addparam=dom: &DomContext;; addparam=rd: &mut ReadinessArray<2>;; world=poll;; ret=Poll<O>
//@opt passto=readiness:rd;; tls=DOM_CONTEXT:dom;; passto=poll:dom;; passto=poll:rd;; rename=iter:vx_iter,fill:vx_fill
//@opt expr=this.awake_list_buffer[..num_awake].copy_from_slice(awake_list)->vx_copy_into(&mut self.awake_list_buffer, num_awake, awake_list)
//@opt expr=this.futures.project()->();; expr=futures.A0.as_mut()->(&mut self.futures.A0);; expr=0 as _->0 as u32;; expr=futures.A1.as_mut()->(&mut self.futures.A1);; expr=1 as _->1 as u32
//@opt expr=core::mem::swap(&mut out, this.items)->core::mem::swap(&mut self.items, &mut out);; expr=B::when_completed(out)-><B as TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O>>::when_completed(out)
//@opt expr=B::maybe_return(0, value)-><B as TupleMaybeReturn<A0::Output, O>>::maybe_return(0, value);; expr=B::maybe_return(1, value)-><B as TupleMaybeReturn<A1::Output, O>>::maybe_return(1, value)
//@spec
    requires
        old(self).live() || old(self).collected(),
        old(self).at_home(*dom),
        old(rd).wf(),
    ensures
        // a collected combinator panics rather than give a second result
        !old(self).collected(), // [C04]
        final(self).same_homes(*old(self)),
        final(self).polled, // [D02]
        final(w).dropping == old(w).dropping,
        final(self).slots_ok(), // [C04]
        // whoever polled last is who gets woken when a child wakes, from the moment the list of awake children is taken
        rd_ok(*final(rd), old(cx).task(), old(w).log@, final(w).log@), // [C03]
        r is Pending ==> {
            &&& final(self).live() // [C01,C02,C04]
            &&& final(self).polled_up_to(*old(self), list0(*old(rd)), list0(*old(rd)).len() as int) // [C03]
        },
        r is Ready ==> final(self).decided(*old(self), list0(*old(rd)), r->Ready_0) || final(self).completed(*old(self), list0(*old(rd)), r->Ready_0), // [C01,C02,C03,C04]
//@begin
    let ghost mut s2 = *self;
    let ghost list = rd.list();
    let ghost task = cx.task();
    proof { falses_zero(self.filled@); }
//@loopbefore 0
    let ghost rd1 = *rd;
    let ghost log1 = w.log@;
    let ghost s1 = *self;
    proof {
        assert(rd1.list() =~= Seq::<usize>::empty());
        evolves_start(rd1, log1);
        assert(forall|k: int| 0 <= k < list.len() ==> self.awake_list_buffer@[k] == #[trigger] list[k]);
        assert(listed(self.awake_list_buffer@, list)) by { reveal(listed); }
        assert(Self::settled(*old(self), list, *dom)) by { reveal(Combine2::settled); assert(list.no_duplicates()); assert(forall|j: int| 0 <= j < list.len() ==> #[trigger] list[j] < 2); }
        assert(list == list0(*old(rd))) by { reveal(list0); }
        Self::inv_start(*old(self), *self, list);
    }
//@loop 0
    invariant
        __it1.v@ == s1.awake_list_buffer@, __it1.e == list.len(), list.len() <= 2, 0 <= __it1.i <= __it1.e,
        self.awake_list_buffer == s1.awake_list_buffer,
        list == list0(*old(rd)), !old(self).collected(), Self::settled(*old(self), list, *dom), listed(self.awake_list_buffer@, list),
        evolves(rd1, *rd, log1, w.log@), rd1.list().len() == 0, rd1.parent() == task, log1 == old(w).log@, task == old(cx).task(),
        w.dropping == old(w).dropping,
        self.polled,
        Self::inv(*old(self), *self, list, __it1.i as int),
    ensures __it1.i == __it1.e,
    decreases __it1.e - __it1.i,
//@loopstart 0
    let ghost k = __it1.i as int;
    let ghost sk = *self;
    let ghost rdk = *rd;
    let ghost logk = w.log@;
    proof {
        if k < list.len() { Self::inv_at(*old(self), *self, list, k, *dom); listed_at(self.awake_list_buffer@, list, k); }
    }
//@before continue
    proof {
        same_flags(sk.filled@, self.filled@, list[k] as int);
        Self::inv_skip(*old(self), sk, *self, list, k, *dom);
    }
//@return 0
    proof {
        evolves_trans(rd1, rdk, *rd, log1, logk, w.log@);
        same_flags(sk.filled@, self.filled@, list[k] as int);
        assert(Self::brk0(sk.futures, sk.items, self.futures, self.items, __r->Ready_0)) by { reveal(Combine2::brk0); }
        Self::is_brk0(sk.futures, sk.items, self.futures, self.items, __r->Ready_0);
        Self::inv_brk(*old(self), sk, *self, list, k, *dom, __r->Ready_0);
        rd_end(rd1, *rd, log1, w.log@);
    }
//@before =true
    proof {
        assert(Self::arm0(sk.futures, sk.items, self.futures, self.items, true)) by { reveal(Combine2::arm0); }
        Self::is_arm0(sk.futures, sk.items, self.futures, self.items, true);
    }
//@before =false
    proof {
        assert(Self::arm0(sk.futures, sk.items, self.futures, self.items, false)) by { reveal(Combine2::arm0); }
        Self::is_arm0(sk.futures, sk.items, self.futures, self.items, false);
    }
//@return 1
    proof {
        evolves_trans(rd1, rdk, *rd, log1, logk, w.log@);
        same_flags(sk.filled@, self.filled@, list[k] as int);
        assert(Self::brk1(sk.futures, sk.items, self.futures, self.items, __r->Ready_0)) by { reveal(Combine2::brk1); }
        Self::is_brk1(sk.futures, sk.items, self.futures, self.items, __r->Ready_0);
        Self::inv_brk(*old(self), sk, *self, list, k, *dom, __r->Ready_0);
        rd_end(rd1, *rd, log1, w.log@);
    }
//@before =true
    proof {
        assert(Self::arm1(sk.futures, sk.items, self.futures, self.items, true)) by { reveal(Combine2::arm1); }
        Self::is_arm1(sk.futures, sk.items, self.futures, self.items, true);
    }
//@before =false
    proof {
        assert(Self::arm1(sk.futures, sk.items, self.futures, self.items, false)) by { reveal(Combine2::arm1); }
        Self::is_arm1(sk.futures, sk.items, self.futures, self.items, false);
    }
//@loopend 0
    proof {
        evolves_trans(rd1, rdk, *rd, log1, logk, w.log@);
        assert(self.filled@ == sk.filled@.update(list[k] as int, self.filled@[list[k] as int]));
        Self::inv_step(*old(self), sk, *self, list, k, *dom);
    }
//@before vx_fill(false)
    proof { s2 = *self; reveal(Combine2::inv); reveal(Combine2::child_ok); falses_zero(self.filled@); assert(self.filled@[0]); assert(self.child_ok(0)); assert(self.filled@[1]); assert(self.child_ok(1)); <B as TupleMaybeReturn<A0::Output, O>>::keeping(0, self.futures.A0.out().unwrap(), self.items.0@.unwrap()); }
//@end
    proof {
        reveal(evolves); reveal(list0); reveal(rd_ok); reveal(Combine2::inv); reveal(Combine2::child_ok); reveal(Combine2::polls); reveal(Combine2::home); reveal(Combine2::slots_ok);
        if __r is Ready {
            assert forall|i: int, d: DomContext, t: int| 0 <= i < 2 implies #[trigger] self.home(i, d, t) == s2.home(i, d, t) by { }
            Self::keep_homes(*old(self), s2, *self);
            assert forall|i: int| 0 <= i < 2 implies #[trigger] self.polls(i) == s2.polls(i) by { }
            let items = (s2.items.0@.unwrap(), s2.items.1@.unwrap(),);
            assert(s2.child_ok(0)); assert(s2.child_ok(1));
            assert(self.completed_with(*old(self), list, __r->Ready_0, items));
        } else {
            Self::slots(*self);
        }
    }
//@endfn
//@fn ct Combine2::PinnedDrop::drop
//@opt pin;; addparam=dom: Option<&DomContext>;; world=remove_child,block_until_drop;; tls=DOM_CONTEXT:vx_ctx(dom)
//@spec
    requires old(self).slots_ok(), old(self).polled && !old(w).blocked() ==> dom is Some,
    ensures
        // every value still held is dropped, and only once
        forall|i: int| 0 <= i < 2 ==> !#[trigger] final(self).item_some(i), // [C04]
        final(self).futures == old(self).futures,
        // what was rendered goes, once, unless something around goes with it or nothing was ever rendered
        final(w).log@ == (if !old(w).blocked() && old(self).polled { old(w).log@.push(removal(*dom.unwrap(), Seq::empty())) } else { old(w).log@ }), // [D02]
        final(w).blocked(), old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> final(w).dropping.p.addr() == old(self).detachment_blocker.addr(), // [D02]
        final(self).detachment_blocker == old(self).detachment_blocker,
//@begin
    proof { reveal(Combine2::slots_ok); assert(self.filled@[0] == self.item_some(0)); assert(self.filled@[1] == self.item_some(1)); }
//@endfn
//@glue ct Combine2
//@opt params=dom: Option<&DomContext>, w: &mut World;; fields=futures,detachment_blocker
//@spec
    requires
        old(self).slots_ok(), old(self).polled && !old(w).blocked() ==> dom is Some,
        // no two live blockers at one address
        old(w).blocked() ==> old(w).dropping.p.addr() != old(self).detachment_blocker.addr(),
    ensures
        // what was rendered goes at once, and no child takes out anything of it once more
        forall|g: int| #[trigger] old(self).futures.all_apart(g) ==> elsewhere(if !old(w).blocked() && old(self).polled { old(w).log@.push(removal(*dom.unwrap(), Seq::empty())) } else { old(w).log@ }, final(w).log@, g), // [D02]
        // later drops are unaffected
        old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> !final(w).blocked(), // [D02]
//@endfn
}
impl<A0: Future<ReadinessArray<2>>, A1: Future<ReadinessArray<2>>> Futures<A0, A1> {
    spec fn all_apart(&self, g: int) -> bool { true && self.A0.apart(g) && self.A1.apart(g) }
//@glue ct Futures
//@opt pick=Futures<A0,A1,>;; name=vx_gone;; params=dom: Option<&DomContext>, w: &mut World
//@spec
    requires old(w).blocked(),
    ensures
        final(w).dropping == old(w).dropping,
        forall|g: int| #[trigger] old(self).all_apart(g) ==> elsewhere(old(w).log@, final(w).log@, g),
//@begin
    let ghost l0 = w.log@;
//@before A0
    let ghost l_0 = w.log@;
//@after A0
    proof { assert forall|g: int| #[trigger] old(self).all_apart(g) implies elsewhere(l0, w.log@, g) by { elsewhere_trans(l0, l_0, w.log@, g); } }
//@before A1
    let ghost l_1 = w.log@;
//@after A1
    proof { assert forall|g: int| #[trigger] old(self).all_apart(g) implies elsewhere(l0, w.log@, g) by { elsewhere_trans(l0, l_1, w.log@, g); } }
//@endfn
}
impl<B, O, A0: Future<ReadinessArray<2>>, A1: Future<ReadinessArray<2>>> CombineTuple for ((A0, A1,), B, PhantomData<O>) where B: TupleMaybeReturn<A0::Output, O>, B: TupleMaybeReturn<A1::Output, O>, B: TupleWhenCompleted<(<B as TupleMaybeReturn<A0::Output, O>>::StoredItem, <B as TupleMaybeReturn<A1::Output, O>>::StoredItem,), O> {
    type Combined = Combine2<B, O, A0, A1>;
    spec fn fresh(&self) -> bool { true && self.0.0.out().is_none() && self.0.1.out().is_none() }
    spec fn made(&self, r: Self::Combined) -> bool {
        &&& r.live() && r.slots_ok() && !r.polled
        &&& r.futures.A0 == self.0.0
        &&& r.futures.A1 == self.0.1
    }
//@fn ct Tuple::CombineTuple::combine
//@opt expr=DetachmentBlocker->vx_blocker();; pick=Combine2{;; call=WakerArray::new->vx_waker_array;; expr=common2::LEN->2;; path=common2::Futures->Futures
//@end
    proof {
        falses_zero(__r.filled@); reveal(Combine2::child_ok); reveal(Combine2::slots_ok);
        assert forall|i: int| 0 <= i < 2 implies #[trigger] __r.child_ok(i) by { }
    }
//@endfn
}
} // verus!
