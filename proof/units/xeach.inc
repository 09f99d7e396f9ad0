//@file fe x-bow/src/path_ext/for_each.rs
//@file fea x-bow/src/path_ext/for_each_async.rs
//@file ss x-bow/src/path_ext/signal_stream.rs
//@file bfe x-bow/src/path_ext/bind_for_each.rs
verus! {
// ======== what user code run by these futures may do to a store: anything but to their own subscription ========
spec fn big() -> int { 0x4000_0000_0000_0000 }
/// the subscription is registered and there is room for many more changes
spec fn calm(l: Slots, s: StoreWakers) -> bool { l_on(l, s) && l_sum(l, s) + big() <= u64::MAX && room(s, big()) }
spec fn drift(l: Slots, s0: StoreWakers, s1: StoreWakers) -> bool {
    &&& calm(l, s1)
    &&& l_sum(l, s0) <= l_sum(l, s1)
    &&& forall|s: int| slots_of(l).contains(s) ==> #[trigger] s1.task(s) == s0.task(s)
}
spec fn mine(l: Slots, s: StoreWakers, task: int) -> bool { forall|x: int| slots_of(l).contains(x) ==> #[trigger] s.task(x) == task }
/// a change was notified since the last poll, or this is the first one
spec fn first(u: UntilChange) -> bool { !u.polled() }
spec fn changed(u: UntilChange, s: StoreWakers) -> bool { u.polled() && u.last_version != u.sum(s) }
/// impl FnMut(&A)
trait VxFn<A> {
    /// what it has been called with
    spec fn calls(&self) -> Seq<A>;
    fn call(&mut self, a: &A, l: Ghost<Slots>, store: &mut StoreWakers, w: &mut World)
        requires l_on(l@, *old(store)),
        ensures final(self).calls() == old(self).calls().push(*a), drift(l@, *old(store), *final(store));
}
/// impl FnMut(&A) -> F
trait VxFnAsync<A, F: Fut> {
    spec fn calls(&self) -> Seq<A>;
    fn call(&mut self, a: &A, l: Ghost<Slots>, store: &mut StoreWakers, w: &mut World) -> (r: F)
        requires l_on(l@, *old(store)),
        ensures final(self).calls() == old(self).calls().push(*a), drift(l@, *old(store), *final(store)), r.polls() == 0, !r.done(), r.call_no() == old(self).calls().len();
}
/// impl Future<Output = ()>
trait Fut: Sized {
    /// which call it came from
    spec fn call_no(&self) -> nat;
    spec fn polls(&self) -> nat;
    spec fn done(&self) -> bool;
    spec fn task(&self) -> int;
    fn poll(&mut self, cx: &mut Context<'_>, l: Ghost<Slots>, store: &mut StoreWakers, w: &mut World) -> (r: Poll<()>)
        requires
            !old(self).done(), // [X04]
            l_on(l@, *old(store)),
        ensures
            final(self).call_no() == old(self).call_no(), final(self).polls() == old(self).polls() + 1,
            final(self).done() == (r is Ready), final(self).task() == old(cx).task(),
            final(cx).task() == old(cx).task(),
            drift(l@, *old(store), *final(store));
}
/// Pin<&mut Option<F>>::set drops what was there before the new value takes its place
trait VxSet<F: Fut>: Sized {
    spec fn was(self) -> Option<F>;
    fn set(&mut self, v: Option<F>, l: Ghost<Slots>, store: &mut StoreWakers, w: &mut World)
        requires
            // a call still running is over before the next one is first polled
            (*old(self)).was() is Some && v is Some ==> v.unwrap().polls() == 0, // [X04]
            l_on(l@, *old(store)),
        ensures (*final(self)).was() == v, drift(l@, *old(store), *final(store));
    fn as_pin_mut(&mut self) -> (r: Option<&mut F>)
        ensures
            r is Some <==> (*old(self)).was() is Some,
            r is Some ==> *r.unwrap() == (*old(self)).was().unwrap() && (*final(self)).was() == Some(*final(r.unwrap())),
            r is None ==> (*final(self)).was() is None;
}
impl<F: Fut> VxSet<F> for Option<F> {
    spec fn was(self) -> Option<F> { self }
    #[verifier::external_body]
    fn set(&mut self, v: Option<F>, l: Ghost<Slots>, store: &mut StoreWakers, w: &mut World) { unimplemented!() }
    fn as_pin_mut(&mut self) -> (r: Option<&mut F>) { match self { Some(f) => Some(f), None => None } }
}
/// impl Stream<Item = T>
trait VxStream<T>: Sized {
    /// what it has delivered
    spec fn given(&self) -> Seq<T>;
    spec fn over(&self) -> bool;
    spec fn task(&self) -> int;
    fn poll_next(&mut self, cx: &mut Context<'_>, l: Ghost<Slots>, root: &mut Root, store: &mut StoreWakers, w: &mut World) -> (r: Poll<Option<T>>)
        requires
            !old(self).over(), // [X05]
            l_on(l@, *old(store)),
        ensures
            final(self).given() == (match r { Poll::Ready(Some(v)) => old(self).given().push(v), _ => old(self).given() }),
            final(self).over() == (r == Poll::<Option<T>>::Ready(None)),
            r is Pending ==> final(self).task() == old(cx).task(),
            final(cx).task() == old(cx).task(),
            drift(l@, *old(store), *final(store));
}
// ======== for_each ========
//@struct fe ForEach
//@opt generics=<'a, P: DataPath, C: VxFn<P::Out>>;; type=UntilChange<'a>->UntilChange
//@endfn
impl<'a, P: DataPath, C: VxFn<P::Out>> ForEach<'a, P, C> {
//@fn fe ForEach::new
//@opt type=UntilChange<'a>->UntilChange
//@spec
    ensures r.path == path, r.until_change == until_change, r.closure == closure, // [X04]
//@endfn
//@fn fe ForEach::Future::poll
//@opt addparam=root: &Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; boolor=1;; fnfield=closure;; passto=borrow_opt:root;; rename=as_deref:vx_as_deref;; passto=poll_next:store;; passto=call:Ghost(__l);; passto=call:store;; passto=call:w;; ret=Poll<()>
//@spec
    requires calm(old(self).until_change.slots@, *old(store)),
    ensures
        r is Pending, // [X04]
        // called with the current data, if there is any, at the start and after a change
        final(self).closure.calls() == (if (first(old(self).until_change) || changed(old(self).until_change, *old(store))) && old(self).path.at(*root) is Some { old(self).closure.calls().push(old(self).path.at(*root).unwrap()) } else { old(self).closure.calls() }), // [X04]
        // what changes from here on (in the call too) is for the next poll
        final(self).until_change.last_version == old(self).until_change.sum(*old(store)), // [X04]
        final(self).until_change.slots == old(self).until_change.slots, final(self).path == old(self).path,
        l_on(final(self).until_change.slots@, *final(store)),
        mine(final(self).until_change.slots@, *final(store), old(cx).task()), // [X04]
//@begin
    let ghost __l = self.until_change.slots@;
//@endfn
}
// ======== signal_stream ========
//@struct ss SignalStream
//@opt generics=<'a, P: DataPath>;; type=UntilChange<'a>->UntilChange
//@endfn
impl<'a, P: DataPath> SignalStream<'a, P> {
//@fn ss SignalStream::new
//@opt type=UntilChange<'a>->UntilChange
//@spec
    ensures r.path == path, r.until_change == until_change, r.fire_immediately == fire_immediately, // [X04]
//@endfn
//@fn ss SignalStream::Stream::poll_next
//@opt addparam=root: &'a Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; boolor=1;; passto=borrow_opt:root;; rename=as_deref:vx_as_deref;; passto=poll_next:store;; ret=Poll<Option<&'a P::Out>>
//@spec
    requires calm(old(self).until_change.slots@, *old(store)),
    ensures
        // the current data (or the end if there is none) after a change, and at the start if asked to
        r is Ready <==> (first(old(self).until_change) && old(self).fire_immediately) || changed(old(self).until_change, *old(store)), // [X04]
        r is Ready ==> (r->Ready_0 is Some <==> old(self).path.at(*root) is Some), // [X04]
        r is Ready && r->Ready_0 is Some ==> *r->Ready_0.unwrap() == old(self).path.at(*root).unwrap(), // [X04]
        final(self).until_change.last_version == old(self).until_change.sum(*old(store)), // [X04]
        final(self).until_change.slots == old(self).until_change.slots, final(self).path == old(self).path, final(self).fire_immediately == old(self).fire_immediately, // [X04]
        l_on(final(self).until_change.slots@, *final(store)),
        mine(final(self).until_change.slots@, *final(store), old(cx).task()), // [X04]
//@endfn
}
// ======== for_each_async ========
//@struct fea ForEachAsync
//@opt generics=<'a, P: DataPath, F: Fut, C: VxFnAsync<P::Out, F>>;; type=UntilChange<'a>->UntilChange
//@endfn
impl<'a, P: DataPath, F: Fut, C: VxFnAsync<P::Out, F>> ForEachAsync<'a, P, F, C> {
    /// no finished future is kept
    spec fn fine(&self) -> bool { self.future is Some ==> !self.future.unwrap().done() }
    spec fn starts(&self, s: StoreWakers, root: Root) -> bool { (first(self.until_change) || changed(self.until_change, s)) && self.path.at(root) is Some }
//@fn fea ForEachAsync::new
//@opt type=UntilChange<'a>->UntilChange
//@spec
    ensures r.path == path, r.until_change == until_change, r.closure == closure, r.fine(), r.future is None, // [X04]
//@endfn
//@fn fea ForEachAsync::Future::poll
//@opt addparam=root: &Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; boolor=1;; fnfield=closure;; passto=borrow_opt:root;; rename=as_deref:vx_as_deref;; passto=poll_next:store;; passto=call:Ghost(__l);; passto=call:store;; passto=call:w;; passto=set:Ghost(__l);; passto=set:store;; passto=set:w;; passto=poll:Ghost(__l);; passto=poll:store;; passto=poll:w;; ret=Poll<()>
//@spec
    requires calm(old(self).until_change.slots@, *old(store)), old(self).fine(),
    ensures
        r is Pending, // [X04]
        final(self).closure.calls() == (if old(self).starts(*old(store), *root) { old(self).closure.calls().push(old(self).path.at(*root).unwrap()) } else { old(self).closure.calls() }), // [X04]
        // the call still running goes on unless a new one takes its place; either way it is polled once
        final(self).future is Some && old(self).starts(*old(store), *root) ==> final(self).future.unwrap().call_no() == old(self).closure.calls().len() && final(self).future.unwrap().polls() == 1, // [X04]
        final(self).future is Some && !old(self).starts(*old(store), *root) ==> old(self).future is Some && final(self).future.unwrap().call_no() == old(self).future.unwrap().call_no() && final(self).future.unwrap().polls() == old(self).future.unwrap().polls() + 1, // [X04]
        final(self).future is Some ==> final(self).future.unwrap().task() == old(cx).task(), // [X04]
        final(self).fine(), // [X04]
        final(self).until_change.last_version == old(self).until_change.sum(*old(store)), // [X04]
        final(self).until_change.slots == old(self).until_change.slots, final(self).path == old(self).path,
        l_on(final(self).until_change.slots@, *final(store)),
        mine(final(self).until_change.slots@, *final(store), old(cx).task()), // [X04]
//@begin
    let ghost __l = self.until_change.slots@;
//@endfn
}
// ======== bind_for_each ========
//@struct bfe BindForEach
//@opt generics=<'a, P: DataPath, C: VxFn<P::Out>, I: VxStream<P::Out>>;; type=UntilChange<'a>->UntilChange
//@endfn
/// what one poll did: root1 and s1 are the data and the subscriptions after the incoming stream was polled
spec fn bound_at<'a, P: DataPath, C: VxFn<P::Out>, I: VxStream<P::Out>>(o: BindForEach<'a, P, C, I>, n: BindForEach<'a, P, C, I>, s0: StoreWakers, root1: Root, s1: StoreWakers, root2: Root, s2: StoreWakers, r: Poll<()>) -> bool {
    let v = n.incoming.given().skip(o.incoming.given().len() as int);
    &&& drift(o.until_change.slots@, s0, s1)
    &&& n.incoming.given() == o.incoming.given() + v
    &&& if v.len() > 0 && o.path.open(root1) {
        // the last value is written, without a call; the binding is over if the stream is
        &&& o.path.at(root2) == Some(v.last())
        &&& n.closure.calls() == o.closure.calls()
        &&& r is Ready <==> n.incoming.over()
        // and the write is not seen by the next poll
        &&& r is Pending ==> n.until_change.last_version == n.until_change.sum(s2) && n.until_change.polled()
    } else if v.len() > 0 {
        // it cannot be written
        r is Ready && n.closure.calls() == o.closure.calls() && root2 == root1
    } else {
        &&& root2 == root1
        &&& r is Ready <==> n.incoming.over()
        &&& n.closure.calls() == (if !n.incoming.over() && (first(o.until_change) || changed(o.until_change, s1)) && o.path.at(root1) is Some { o.closure.calls().push(o.path.at(root1).unwrap()) } else { o.closure.calls() })
        &&& r is Pending ==> n.until_change.last_version == o.until_change.sum(s1)
    }
}
impl<'a, P: DataPath, C: VxFn<P::Out>, I: VxStream<P::Out>> BindForEach<'a, P, C, I> {
//@fn bfe BindForEach::new
//@opt type=UntilChange<'a>->UntilChange
//@spec
    ensures r.path == path, r.until_change == until_change, r.closure == closure, r.incoming == incoming, // [X05]
//@endfn
//@fn bfe BindForEach::Future::poll
//@opt addparam=root: &mut Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; boolor=1;; fnfield=closure;; passto=borrow_opt:root;; rename=as_deref:vx_as_deref;; passto=borrow_opt_mut:root;; guard=borrow_opt_mut:w, store;; passto=until_change.poll_next:store;; passto=call:Ghost(__l);; passto=call:store;; passto=call:w;; passto=incoming.poll_next:Ghost(__l);; passto=incoming.poll_next:root;; passto=incoming.poll_next:store;; passto=incoming.poll_next:w;; ret=Poll<()>;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        calm(old(self).until_change.slots@, *old(store)), old(self).until_change.slots@.len() < 0x2000_0000, old(self).path.segs().len() < 0x2000_0000,
        !old(self).incoming.over(),
    ensures
        exists|root1: Root, s1: StoreWakers| #[trigger] bound_at(*old(self), *final(self), *old(store), root1, s1, *final(root), *final(store), r), // [X05]
        final(self).until_change.slots == old(self).until_change.slots, final(self).path == old(self).path,
        r is Pending ==> !final(self).incoming.over() && final(self).incoming.task() == old(cx).task(), // [X05]
        l_on(final(self).until_change.slots@, *final(store)),
        r is Pending ==> mine(final(self).until_change.slots@, *final(store), old(cx).task()), // [X05]
//@begin
    let ghost __l = self.until_change.slots@;
    let ghost o = *self;
    let ghost s0 = *store;
    let ghost task = cx.task();
//@loop 0
    invariant_except_break
        !self.incoming.over(), !ended,
    invariant
        l_on(__l, *store), calm(__l, *store), drift(__l, s0, *store),
        o.incoming.given().is_prefix_of(self.incoming.given()),
        val == (if self.incoming.given().len() > o.incoming.given().len() { Some(self.incoming.given().last()) } else { None }),
        self.until_change == o.until_change, self.closure == o.closure, self.path == o.path, cx.task() == task,
        __l == o.until_change.slots@,
    ensures
        ended == self.incoming.over(), !ended ==> self.incoming.task() == task,
//@before if let Some(val) = val
    let ghost root1 = *root;
    let ghost s1 = *store;
    let ghost given1 = self.incoming.given();
    let ghost v1 = given1.skip(o.incoming.given().len() as int);
    proof { assert(given1 =~= o.incoming.given() + v1); if v1.len() > 0 { assert(v1.last() == given1.last()); } assert(__l.len() * (o.path.segs().len() + 1) <= 0x2000_0000 * 0x2000_0001) by (nonlinear_arith) requires __l.len() < 0x2000_0000, o.path.segs().len() < 0x2000_0000; }
//@return 0
    proof { assert(bound_at(o, *self, s0, root1, s1, *root, *store, Poll::Ready(()))); }
//@return 1
    proof { assert(bound_at(o, *self, s0, root1, s1, *root, *store, Poll::Ready(()))); }
//@end
    proof { assert(bound_at(o, *self, s0, root1, s1, *root, *store, __r)); }
//@endfn
}
// ======== the functions of PathExt that make them ========
/// a new subscription of this path (or, bubbling, of everything below it)
spec fn fresh<P: Path>(p: &P, bub: bool, u: UntilChange, s0: StoreWakers, s1: StoreWakers) -> bool {
    &&& u.last_version == 0
    &&& u.keys() == (if bub { seq![bk(Seq::empty(), 0, p.segs(), p.segs().len() as int)] } else { rks(Seq::empty(), 0, p.segs()) })
    &&& added(s0, u.keys(), u.own(), s1)
    &&& u.on(s1)
}
trait PathExtStreams: DataPath + Sized {
    fn until_change(&self, store: &mut StoreWakers, w: &mut World) -> (r: UntilChange)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, false, r, *old(store), *final(store)), final(w).log@ == old(w).log@; // [X01]
    fn until_bubbling_change(&self, store: &mut StoreWakers, w: &mut World) -> (r: UntilChange)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, true, r, *old(store), *final(store)), final(w).log@ == old(w).log@; // [X02]
    fn for_each<'b, C: VxFn<Self::Out>>(&'b self, closure: C, store: &mut StoreWakers, w: &mut World) -> (r: ForEach<'b, Self, C>)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, false, r.until_change, *old(store), *final(store)), r.path == self, r.closure == closure; // [X04]
    fn for_each_async<'b, F: Fut, C: VxFnAsync<Self::Out, F>>(&'b self, closure: C, store: &mut StoreWakers, w: &mut World) -> (r: ForEachAsync<'b, Self, F, C>)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, false, r.until_change, *old(store), *final(store)), r.path == self, r.closure == closure, r.future is None; // [X04]
    fn signal_stream<'b>(&'b self, fire_immediately: bool, store: &mut StoreWakers, w: &mut World) -> (r: SignalStream<'b, Self>)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, false, r.until_change, *old(store), *final(store)), r.path == self, r.fire_immediately == fire_immediately; // [X04]
    fn bind_for_each<'b, C: VxFn<Self::Out>, I: VxStream<Self::Out>>(&'b self, on_change: C, incoming_changes: I, store: &mut StoreWakers, w: &mut World) -> (r: BindForEach<'b, Self, C, I>)
        requires old(store).wf(), self.segs().len() > 0,
        ensures fresh(self, false, r.until_change, *old(store), *final(store)), r.path == self, r.closure == on_change, r.incoming == incoming_changes; // [X05]
}
impl<P: DataPath> PathExtStreams for P {
//@default addparam=store: &mut StoreWakers;; addparam=w: &mut World;; expr=self.store_wakers()->store;; passto=until_change:store;; passto=until_change:w
//@fn pex PathExt::until_change
//@opt world=new;; ret=UntilChange
//@endfn
//@fn pex PathExt::until_bubbling_change
//@opt world=new_bubbling;; ret=UntilChange
//@endfn
//@fn pex PathExt::for_each
//@opt sig=fn for_each<'b, C: VxFn<Self::Out>>(&'b self, closure: C, store: &mut StoreWakers, w: &mut World) -> (r: ForEach<'b, Self, C>)
//@endfn
//@fn pex PathExt::for_each_async
//@opt sig=fn for_each_async<'b, F: Fut, C: VxFnAsync<Self::Out, F>>(&'b self, closure: C, store: &mut StoreWakers, w: &mut World) -> (r: ForEachAsync<'b, Self, F, C>)
//@endfn
//@fn pex PathExt::signal_stream
//@opt sig=fn signal_stream<'b>(&'b self, fire_immediately: bool, store: &mut StoreWakers, w: &mut World) -> (r: SignalStream<'b, Self>)
//@endfn
//@fn pex PathExt::bind_for_each
//@opt sig=fn bind_for_each<'b, C: VxFn<Self::Out>, I: VxStream<Self::Out>>(&'b self, on_change: C, incoming_changes: I, store: &mut StoreWakers, w: &mut World) -> (r: BindForEach<'b, Self, C, I>)
//@endfn
//@nodefault
}
} // verus!
