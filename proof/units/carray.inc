//@file ca async_ui_web_core/src/combinators/common/array.rs
verus! {
trait CombinatorBehaviorArray<O, const N: usize>: Sized {
    type Output;
    type StoredItem;
    spec fn pends() -> bool;
    fn pend_if_empty() -> (r: bool)
        ensures r == Self::pends();
    spec fn decide(idx: usize, res: O) -> ControlFlow<Self::Output, Self::StoredItem>;
    fn maybe_return(idx: usize, res: O) -> (r: ControlFlow<Self::Output, Self::StoredItem>)
        ensures r == Self::decide(idx, res);
    /// o is what all kept items amount to
    spec fn combined(o: Self::Output, items: Seq<Self::StoredItem>) -> bool;
    spec fn completes(items: Seq<Self::StoredItem>) -> bool;
    proof fn can_complete(outs: Seq<O>, items: Seq<Self::StoredItem>)
        requires
            outs.len() == N, items.len() == N, N == 0 ==> !Self::pends(),
            forall|i: int| 0 <= i < N ==> Self::decide(i as usize, #[trigger] outs[i]) == ControlFlow::<Self::Output, Self::StoredItem>::Continue(items[i]),
        ensures Self::completes(items);
    fn when_completed(arr: [Self::StoredItem; N]) -> (r: Self::Output)
        requires Self::completes(arr@),
        ensures Self::combined(r, arr@);
}
//@struct ca CombinatorArray
//@opt generics=<Fut: Future<ReadinessArray<N>>, B: CombinatorBehaviorArray<Fut::Output, N>, const N: usize>;; where=;; dropfield=behavior;; addfield=behavior: core::marker::PhantomData<B>;; attr=#[verifier::reject_recursive_types(Fut)] #[verifier::reject_recursive_types(B)]
//@endfn
impl<Fut: Future<ReadinessArray<N>>, B: CombinatorBehaviorArray<Fut::Output, N>, const N: usize> CombinatorArray<Fut, B, N> {
    /// child i has completed with a value that is kept
    spec fn kept(&self, i: int) -> bool {
        &&& self.items@[i]@.is_some() && self.futures@[i].out().is_some()
        &&& B::decide(i as usize, self.futures@[i].out().unwrap()) == ControlFlow::<B::Output, B::StoredItem>::Continue(self.items@[i]@.unwrap())
    }
    /// a slot holds a value exactly if it is marked filled
    spec fn slots_ok(&self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] self.filled@[i]) == self.items@[i]@.is_some() }
    /// child i is running and its slot is empty
    spec fn running(&self, i: int) -> bool { self.items@[i]@.is_none() && self.futures@[i].out().is_none() }
    spec fn child_ok(&self, i: int) -> bool { if self.filled@[i] { self.kept(i) } else { self.running(i) } }
    /// not finished
    spec fn live(&self) -> bool {
        &&& forall|i: int| 0 <= i < N ==> #[trigger] self.child_ok(i)
        &&& self.pending == falses(self.filled@)
        &&& N > 0 ==> self.pending > 0
    }
    /// has handed out the outputs of all its children
    spec fn collected(&self) -> bool {
        &&& N > 0 && self.pending == 0
        &&& forall|i: int| 0 <= i < N ==> !#[trigger] self.filled@[i] && self.items@[i]@.is_none()
    }
    spec fn at_home(&self, dom: DomContext) -> bool {
        forall|i: int| 0 <= i < N ==> #[trigger] self.futures@[i].home(DomContext::Child { parent: &dom, index: i as u32 }, self.wakers.wakers@[i].task())
    }
    /// the children polled when those in the list were awake, up to place k of it
    spec fn due(&self, list: Seq<usize>, k: int, i: int) -> bool { !self.filled@[i] && list.take(k).contains(i as usize) }
    /// child i of s is as it was, but for having been polled if it was due
    spec fn polled_up_to(&self, o: Self, list: Seq<usize>, k: int) -> bool {
        forall|i: int| 0 <= i < N ==> #[trigger] self.futures@[i].polls() == o.futures@[i].polls() + if o.due(list, k, i) { 1nat } else { 0 }
    }
    /// children i whose place in the list is before k have been polled, no others, and the child at k decided with o
    spec fn decided(&self, o: Self, list: Seq<usize>, out: B::Output) -> bool {
        exists|k: int| #[trigger] self.decided_at(o, list, out, k)
    }
    spec fn decided_at(&self, o: Self, list: Seq<usize>, out: B::Output, k: int) -> bool {
        &&& 0 <= k < list.len()
        &&& !o.filled@[list[k] as int] && !self.filled@[list[k] as int]
        &&& self.futures@[list[k] as int].out().is_some()
        &&& B::decide(list[k], self.futures@[list[k] as int].out().unwrap()) == ControlFlow::<B::Output, B::StoredItem>::Break(out)
        &&& forall|i: int| 0 <= i < N && i != list[k] ==> #[trigger] self.child_ok(i)
        &&& self.polled_up_to(o, list, k + 1)
    }
    /// every child completed with a value that is kept, and these were handed out, each in its place
    spec fn completed(&self, o: Self, list: Seq<usize>, out: B::Output) -> bool {
        exists|items: Seq<B::StoredItem>| #[trigger] self.completed_with(o, list, out, items)
    }
    spec fn completed_with(&self, o: Self, list: Seq<usize>, out: B::Output, items: Seq<B::StoredItem>) -> bool {
        &&& items.len() == N && B::combined(out, items)
        &&& forall|i: int| 0 <= i < N ==> #[trigger] self.futures@[i].out().is_some() && B::decide(i as usize, self.futures@[i].out().unwrap()) == ControlFlow::<B::Output, B::StoredItem>::Continue(items[i])
        &&& forall|i: int| 0 <= i < N ==> !(#[trigger] self.filled@[i]) && self.items@[i]@.is_none()
        &&& self.pending == 0
        &&& self.polled_up_to(o, list, list.len() as int)
    }
    spec fn same_homes(&self, o: Self) -> bool {
        &&& self.wakers == o.wakers
        &&& forall|i: int, d: DomContext, t: int| 0 <= i < N ==> #[trigger] self.futures@[i].home(d, t) == o.futures@[i].home(d, t)
    }
}
impl<Fut: Future<ReadinessArray<N>>, B: CombinatorBehaviorArray<Fut::Output, N>, const N: usize> CombinatorArray<Fut, B, N> {
    proof fn step(o: Self, a: Self, b: Self, list: Seq<usize>, k: int)
        requires
            0 <= k < list.len(), list.no_duplicates(), forall|j: int| 0 <= j < list.len() ==> #[trigger] list[j] < N,
            a.polled_up_to(o, list, k),
            forall|i: int| 0 <= i < N && i != list[k] ==> #[trigger] b.futures@[i] == a.futures@[i],
            b.futures@[list[k] as int].polls() == a.futures@[list[k] as int].polls() + if o.filled@[list[k] as int] { 0nat } else { 1 },
        ensures b.polled_up_to(o, list, k + 1),
    {
        let x = list[k];
        assert(list.take(k + 1)[k] == x);
        assert forall|i: int| 0 <= i < N implies #[trigger] b.futures@[i].polls() == o.futures@[i].polls() + if o.due(list, k + 1, i) { 1nat } else { 0 } by {
            assert(a.futures@[i].polls() == o.futures@[i].polls() + if o.due(list, k, i) { 1nat } else { 0 });
            if i == x {
                assert(!list.take(k).contains(x)) by {
                    if list.take(k).contains(x) { let j = list.take(k).index_of(x); assert(list[j] == x); }
                }
            } else {
                assert(b.futures@[i] == a.futures@[i]);
                if list.take(k).contains(i as usize) { let j = list.take(k).index_of(i as usize); assert(list.take(k + 1)[j] == i as usize); }
                if list.take(k + 1).contains(i as usize) { let j = list.take(k + 1).index_of(i as usize); assert(j != k); assert(list.take(k)[j] == i as usize); }
            }
        }
    }
}
} // verus!
verus! {
impl<Fut: Future<ReadinessArray<N>>, B: CombinatorBehaviorArray<Fut::Output, N>, const N: usize> CombinatorArray<Fut, B, N> {
//@fn ca CombinatorArray::Future::poll
//@opt pin;; assertpanics;; addparam=dom: &DomContext;; addparam=rd: &mut ReadinessArray<N>;; world=poll;; ret=Poll<B::Output>
//@opt passto=readiness:rd;; tls=DOM_CONTEXT:dom;; passto=poll:dom;; passto=poll:rd;; rename=iter:vx_iter,fill:vx_fill
//@opt expr=this.awake_list_buffer[..num_awake].copy_from_slice(awake_list)->vx_copy_into(&mut self.awake_list_buffer, num_awake, awake_list)
//@opt expr=B::PEND_IF_EMPTY->B::pend_if_empty();; expr=index as _->index as u32;; call=get_pin_mut->vx_get_pin;; expr=array::from_fn(|_| MaybeUninit::uninit())->vx_uninit_array()
//@opt expr=core::mem::swap(this.items, &mut items)->core::mem::swap(&mut self.items, &mut items)
//@spec
    requires
        old(self).live() || old(self).collected(),
        old(self).at_home(*dom),
        old(rd).wf(),
        N <= u32::MAX,
    ensures
        // a collected combinator panics rather than give a second result
        !old(self).collected(), // [C04]
        final(self).same_homes(*old(self)),
        final(self).polled, // [D02]
        final(w).dropping == old(w).dropping,
        final(self).slots_ok(), // [C04]
        // nothing to wait for
        N == 0 && B::pends() ==> r is Pending && final(self).live(), // [C02]
        // whoever polled last is who gets woken when a child wakes, from the moment the list of awake children is taken
        !(N == 0 && B::pends()) ==> final(rd).wf() && final(rd).parent() == old(cx).task(), // [C03]
        !(N == 0 && B::pends()) && final(rd).list().len() > 0 ==> final(w).log@.skip(old(w).log@.len() as int).contains(Ev::Wake(old(cx).task())), // [C03]
        r is Pending && !(N == 0 && B::pends()) ==> {
            &&& N > 0 && final(self).live() // [C01,C02,C04]
            &&& final(self).polled_up_to(*old(self), old(rd).list(), old(rd).list().len() as int) // [C03]
        },
        r is Ready ==> final(self).decided(*old(self), old(rd).list(), r->Ready_0) || final(self).completed(*old(self), old(rd).list(), r->Ready_0), // [C01,C02,C03,C04]
//@begin
    let ghost mut s2 = *self;
    let ghost mut items_s: Seq<B::StoredItem> = Seq::empty();
    let ghost list = rd.list();
    let ghost task = cx.task();
    proof {
        falses_zero(self.filled@);
        if N == 0 { assert(list.len() == 0) by { if list.len() > 0 { assert(list[0] < rd.awake_set@.len()); } } }
    }
//@loopbefore 0
    let ghost rd1 = *rd;
    let ghost log1 = w.log@;
    let ghost s1 = *self;
    proof {
        assert(rd1.list() =~= Seq::<usize>::empty());
        evolves_start(rd1, log1);
        assert(forall|k: int| 0 <= k < list.len() ==> self.awake_list_buffer@[k] == #[trigger] list[k]);
        assert(self.polled_up_to(*old(self), list, 0));
        assert forall|i: int| 0 <= i < N implies #[trigger] self.child_ok(i) by { assert(old(self).child_ok(i)); }
    }
//@loop 0
    invariant
        __it1.v@ == s1.awake_list_buffer@, __it1.e == list.len(), list.len() <= N, 0 <= __it1.i <= __it1.e,
        self.awake_list_buffer == s1.awake_list_buffer,
        forall|k: int| 0 <= k < list.len() ==> self.awake_list_buffer@[k] == #[trigger] list[k],
        old(rd).wf(), list == old(rd).list(), old(self).live(), old(self).at_home(*dom), N <= u32::MAX,
        evolves(rd1, *rd, log1, w.log@), rd1.list().len() == 0, rd1.parent() == task, log1 == old(w).log@, task == old(cx).task(),
        w.dropping == old(w).dropping,
        self.same_homes(*old(self)), self.polled,
        forall|i: int| 0 <= i < N ==> #[trigger] self.child_ok(i),
        self.pending == falses(self.filled@),
        forall|k: int| __it1.i <= k < list.len() ==> self.filled@[#[trigger] list[k] as int] == old(self).filled@[list[k] as int],
        self.polled_up_to(*old(self), list, __it1.i as int),
    ensures __it1.i == __it1.e,
    decreases __it1.e - __it1.i,
//@loopstart 0
    let ghost k = __it1.i as int;
    let ghost sk = *self;
    let ghost rdk = *rd;
    let ghost logk = w.log@;
    proof {
        assert(list.no_duplicates());
        assert(forall|j: int| 0 <= j < list.len() ==> #[trigger] list[j] < N);
        if k < list.len() { assert(self.child_ok(list[k] as int)); if !self.filled@[list[k] as int] { falses_set(self.filled@, list[k] as int); } }
    }
//@before continue
    proof {
        assert(self.filled@ =~= sk.filled@);
        assert forall|i: int| 0 <= i < N implies #[trigger] self.child_ok(i) by { assert(sk.child_ok(i)); }
        Self::step(*old(self), sk, *self, list, k);
    }
//@return 1
    proof {
        reveal(evolves);
        evolves_trans(rd1, rdk, *rd, log1, logk, w.log@);
        Self::step(*old(self), sk, *self, list, k);
        let x = list[k] as int;
        assert forall|i: int| 0 <= i < N && i != x implies #[trigger] self.child_ok(i) by { assert(sk.child_ok(i)); }
        assert(self.decided_at(*old(self), list, __r->Ready_0, k));
        assert forall|i: int| 0 <= i < N implies (#[trigger] self.filled@[i]) == self.items@[i]@.is_some() by { if i != x { assert(self.child_ok(i)); } else { assert(sk.child_ok(i)); } }
    }
//@loopend 0
    proof {
        evolves_trans(rd1, rdk, *rd, log1, logk, w.log@);
        Self::step(*old(self), sk, *self, list, k);
        let x = list[k] as int;
        if self.futures@[x].out().is_some() { assert(self.filled@ =~= sk.filled@.update(x, true)); } else { assert(self.filled@ =~= sk.filled@); }
        assert forall|i: int| 0 <= i < N implies #[trigger] self.child_ok(i) by { assert(sk.child_ok(i)); }
    }
//@before vx_fill(false)
    proof { s2 = *self; falses_zero(self.filled@); assert forall|i: int| 0 <= i < N implies #[trigger] self.items@[i]@.is_some() by { assert(self.child_ok(i)); } }
//@before Poll::Ready(B::when_completed
    proof {
        items_s = items@;
        let outs = Seq::new(N as nat, |i: int| s2.futures@[i].out().unwrap());
        assert forall|i: int| 0 <= i < N implies B::decide(i as usize, #[trigger] outs[i]) == ControlFlow::<B::Output, B::StoredItem>::Continue(items_s[i]) by { assert(s2.child_ok(i)); }
        B::can_complete(outs, items_s);
    }
//@end
    proof {
        reveal(evolves);
        if __r is Ready {
            assert forall|i: int| 0 <= i < N implies #[trigger] self.futures@[i].out().is_some() && B::decide(i as usize, self.futures@[i].out().unwrap()) == ControlFlow::<B::Output, B::StoredItem>::Continue(items_s[i]) by { assert(s2.child_ok(i)); }
            assert(self.completed_with(*old(self), list, __r->Ready_0, items_s));
        } else {
            assert forall|i: int| 0 <= i < N implies (#[trigger] self.filled@[i]) == self.items@[i]@.is_some() by { assert(self.child_ok(i)); }
        }
    }
//@endfn
//@fn ca CombinatorArray::PinnedDrop::drop
//@opt pin;; addparam=dom: Option<&DomContext>;; world=remove_child,block_until_drop;; tls=DOM_CONTEXT:vx_ctx(dom)
//@spec
    requires old(self).slots_ok(), old(self).polled && !old(w).blocked() ==> dom is Some,
    ensures
        // every value still held is dropped, and only once
        all_uninit(final(self).items@), // [C04]
        final(self).futures == old(self).futures,
        // what was rendered goes, once, unless something around goes with it or nothing was ever rendered
        final(w).log@ == (if !old(w).blocked() && old(self).polled { old(w).log@.push(removal(*dom.unwrap(), Seq::empty())) } else { old(w).log@ }), // [D02]
        final(w).blocked(), old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> final(w).dropping.p.addr() == old(self).detachment_blocker.addr(), // [D02]
        final(self).detachment_blocker == old(self).detachment_blocker,
//@loop 0
    invariant
        __it2.e == N, __it2.i <= N,
        forall|i: int| __it2.i <= i < N ==> (#[trigger] self.filled@[i]) == self.items@[i]@.is_some(),
        forall|i: int| 0 <= i < __it2.i ==> (#[trigger] self.items@[i])@.is_none(),
        self.futures == old(self).futures,
        w.log@ == (if !old(w).blocked() && old(self).polled { old(w).log@.push(removal(*dom.unwrap(), Seq::empty())) } else { old(w).log@ }),
        w.blocked(), old(w).blocked() ==> w.dropping == old(w).dropping,
        !old(w).blocked() ==> w.dropping.p.addr() == old(self).detachment_blocker.addr(),
        self.detachment_blocker == old(self).detachment_blocker,
    ensures __it2.i == N,
    decreases N - __it2.i,
//@endfn
//@glue ca CombinatorArray
//@opt params=dom: Option<&DomContext>, w: &mut World;; fields=futures,detachment_blocker
//@spec
    requires
        old(self).slots_ok(), old(self).polled && !old(w).blocked() ==> dom is Some,
        // no two live blockers at one address
        old(w).blocked() ==> old(w).dropping.p.addr() != old(self).detachment_blocker.addr(),
    ensures
        // what was rendered goes at once, and no child takes out anything of it once more
        forall|g: int| #[trigger] <[Fut; N] as VxGone<ReadinessArray<N>>>::all_apart(&old(self).futures, g) ==> elsewhere(if !old(w).blocked() && old(self).polled { old(w).log@.push(removal(*dom.unwrap(), Seq::empty())) } else { old(w).log@ }, final(w).log@, g), // [D02]
        // later drops are unaffected
        old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> !final(w).blocked(), // [D02]
//@endfn
//@fn ca CombinatorArray::new
//@opt expr=DetachmentBlocker->vx_blocker();; call=WakerArray::new->vx_waker_array;; expr=array::from_fn(|_| MaybeUninit::uninit())->vx_uninit_array();; ret=Self
//@spec
    requires forall|i: int| 0 <= i < N ==> (#[trigger] futures@[i]).out().is_none(),
    ensures
        r.live(), r.slots_ok(), // [C04]
        !r.polled, // [D02]
        r.futures == futures,
//@end
    proof {
        falses_zero(__r.filled@);
        assert forall|i: int| 0 <= i < N implies #[trigger] __r.child_ok(i) by { assert(futures@[i].out().is_none()); assert(__r.items@[i]@.is_none()); }
    }
//@endfn
}
} // verus!
