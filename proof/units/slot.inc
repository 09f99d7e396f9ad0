verus! {
// ======== trusted contracts ========
/// what has been woken so far, and which future of the slot has been polled with whose waker
pub struct World { pub log: Ghost<Seq<int>>, pub polls: Ghost<Seq<(int, int)>> }
#[verifier::external_body]
pub struct Waker { x: u8 }
pub uninterp spec fn no_task() -> int;
impl Waker {
    pub uninterp spec fn task(&self) -> int;
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool)
        ensures r ==> self.task() == o.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(self.task()), final(w).polls == old(w).polls,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(self, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(self.task()), final(w).polls == old(w).polls,
    { unimplemented!() }
    pub fn clone_from(&mut self, o: &Waker)
        ensures final(self).task() == o.task(),
    { *self = o.clone(); }
}
#[verifier::external_body]
pub fn dummy_waker() -> (r: Waker)
    ensures r.task() == no_task(),
{ unimplemented!() }
/// the context the task that renders the slot is polled with
#[verifier::external_body]
pub fn vx_context<'a>() -> (r: Context<'a>) { unimplemented!() }
/// the value of poll_fn(..).await
#[verifier::external_body]
pub fn vx_got<T>(g: Option<T>) -> (r: T)
    ensures g == Some(r),
{ unimplemented!() }
/// the future of a slot: which it is, and whether it has completed; polling it may set and clear the slot it is in
pub trait VxFuture: Sized {
    spec fn id(&self) -> int;
    spec fn done(&self) -> bool;
}
pub trait Future: VxFuture {
    fn poll(&mut self, cx: &mut Context, ch: &mut Channel<Self>, w: &mut World) -> (r: Poll<()>)
        requires !old(self).done(),
        ensures
            final(self).id() == old(self).id(), final(self).done() == (r is Ready), final(cx).task() == old(cx).task(),
            used(*old(ch), *final(ch), old(w).log@, final(w).log@),
            final(w).polls@ == old(w).polls@.push((old(self).id(), old(cx).task()));
}
/// Pin<&mut Option<F>>
pub struct VxHeld<F> { pub v: Option<F> }
impl<F> VxHeld<F> {
    pub fn none() -> (r: Self) ensures r.v is None, { VxHeld { v: None } }
    pub fn set(&mut self, v: Option<F>) ensures final(self).v == v, { self.v = v; }
    pub fn is_some(&self) -> (r: bool) ensures r == (self.v is Some), { self.v.is_some() }
    pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None), { self.v.is_none() }
    pub fn as_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self), { self }
    #[verifier::external_body]
    pub fn as_pin_mut(&mut self) -> (r: Option<&mut F>)
        ensures
            r is Some <==> old(self).v is Some,
            r is None ==> *final(self) == *old(self),
            r is Some ==> *r.unwrap() == old(self).v.unwrap() && final(self).v == Some(*final(r.unwrap())),
    { unimplemented!() }
}
//@default cell
//@enum ds Message
//@endfn
/// RefCell<(Waker, Message<F>)>, and what has been asked of it so far: the future to show, or none
pub struct Channel<F>(Waker, Message<F>, Ghost<Seq<Option<int>>>);
impl<F: VxFuture> Channel<F> {
    fn new(p: (Waker, Message<F>)) -> (r: Self)
        ensures r.0 == p.0, r.1 == p.1, r.2@ == Seq::<Option<int>>::empty(),
    { Channel(p.0, p.1, Ghost(Seq::empty())) }
    spec fn last(&self) -> Option<int> { if self.2@.len() == 0 { None } else { self.2@.last() } }
    /// what waits in the channel is what was asked last
    spec fn fits(&self) -> bool {
        match self.1 {
            Message::Set(f) => self.last() == Some(f.id()) && !f.done(),
            Message::Clear => self.last() is None,
            Message::NoChange => true,
        }
    }
}
/// b is a after some calls of set_future and clear_future, each of which woke the task
pub closed spec fn used<F: VxFuture>(a: Channel<F>, b: Channel<F>, la: Seq<int>, lb: Seq<int>) -> bool {
    &&& b.0.task() == a.0.task()
    &&& a.2@.len() <= b.2@.len() && a.2@ == b.2@.take(a.2@.len() as int)
    &&& la.len() <= lb.len() && la == lb.take(la.len() as int)
    &&& b.2@.len() == a.2@.len() ==> b.1 == a.1
    &&& b.2@.len() > a.2@.len() ==> b.fits() && !(b.1 is NoChange) && exists|i: int| la.len() <= i < lb.len() && #[trigger] lb[i] == a.0.task()
}
/// what used says is so of no calls, and of calls after calls
proof fn used_none<F: VxFuture>(a: Channel<F>, la: Seq<int>, lb: Seq<int>)
    requires la.len() <= lb.len(), la == lb.take(la.len() as int),
    ensures used(a, a, la, lb), // [U01]
{ assert(a.2@ =~= a.2@.take(a.2@.len() as int)); }
proof fn used_more<F: VxFuture>(a: Channel<F>, b: Channel<F>, c: Channel<F>, la: Seq<int>, lb: Seq<int>, lc: Seq<int>)
    requires used(a, b, la, lb), used(b, c, lb, lc),
    ensures used(a, c, la, lc), // [U01]
{
    assert(a.2@ =~= c.2@.take(a.2@.len() as int)) by { assert(b.2@.take(a.2@.len() as int) =~= c.2@.take(a.2@.len() as int)); }
    assert(la =~= lc.take(la.len() as int)) by { assert(lb.take(la.len() as int) =~= lc.take(la.len() as int)); }
    if c.2@.len() > a.2@.len() {
        if c.2@.len() > b.2@.len() { let i = choose|i: int| lb.len() <= i < lc.len() && #[trigger] lc[i] == b.0.task(); assert(lc[i] == a.0.task()); }
        else { let i = choose|i: int| la.len() <= i < lb.len() && #[trigger] lb[i] == a.0.task(); assert(lc[i] == lb[i]); assert(b.2@ =~= c.2@); }
    }
}
/// whatever goes on between two polls of the task: calls of set_future and clear_future among it
#[verifier::external_body]
fn vx_between<F: Future>(ch: &mut Channel<F>, w: &mut World)
    ensures used(*old(ch), *final(ch), old(w).log@, final(w).log@), final(w).polls == old(w).polls,
{ unimplemented!() }
//@struct ds DynamicSlot
//@opt generics=<F: Future>;; where=;; type=RefCell<(Waker,Message<F>)>->Channel<F>
//@endfn
spec fn held<F: VxFuture>(h: Option<F>) -> Option<int> { match h { Some(f) => Some(f.id()), None => None } }
/// the message and the future held, together, are what was asked last
spec fn agree<F: VxFuture>(ch: Channel<F>, h: Option<F>, completed: bool) -> bool {
    &&& ch.fits()
    &&& ch.1 is NoChange ==> held(h) == ch.last()
    &&& h matches Some(f) ==> f.done() == completed
}
/// the future that the slot holds once it has taken the message, and whether it is still to be polled
spec fn to_poll<F: VxFuture>(ch: Channel<F>, h: Option<F>, completed: bool) -> bool {
    match ch.1 { Message::Set(f) => true, Message::Clear => false, Message::NoChange => h is Some && !completed }
}
impl<F: Future> DynamicSlot<F> {
//@fn ds DynamicSlot::new
//@opt path=RefCell::new->Channel::new
//@spec
    ensures r.channel.1 is NoChange, r.channel.2@ == Seq::<Option<int>>::empty(), // [U01]
//@endfn
//@fn ds DynamicSlot::set_future
//@opt self=mut;; addparam=w: &mut World;; world=wake_by_ref,wake
//@spec
    requires !fut.done(),
    ensures
        // the future is what the slot is to show, and the task that renders it is woken
        final(self).channel.1 == Message::Set(fut), // [U01]
        final(self).channel.2@ == old(self).channel.2@.push(Some(fut.id())),
        final(w).log@.len() > old(w).log@.len() && final(w).log@.last() == old(self).channel.0.task(), // [U01]
        used(old(self).channel, final(self).channel, old(w).log@, final(w).log@), // [U01]
//@begin
    let ghost a = self.channel; let ghost la = w.log@;
    proof { self.channel.2@ = self.channel.2@.push(Some(fut.id())); }
//@end
    proof { assert(a.2@ =~= self.channel.2@.take(a.2@.len() as int)); assert(la =~= w.log@.take(la.len() as int)); assert(w.log@[w.log@.len() - 1] == a.0.task()); }
//@endfn
//@fn ds DynamicSlot::clear_future
//@opt self=mut;; addparam=w: &mut World;; world=wake_by_ref,wake
//@spec
    ensures
        final(self).channel.1 is Clear, // [U01]
        final(self).channel.2@ == old(self).channel.2@.push(None),
        final(w).log@.len() > old(w).log@.len() && final(w).log@.last() == old(self).channel.0.task(), // [U01]
        used(old(self).channel, final(self).channel, old(w).log@, final(w).log@), // [U01]
//@begin
    let ghost a = self.channel; let ghost la = w.log@;
    proof { self.channel.2@ = self.channel.2@.push(None); }
//@end
    proof { assert(a.2@ =~= self.channel.2@.take(a.2@.len() as int)); assert(la =~= w.log@.take(la.len() as int)); assert(w.log@[w.log@.len() - 1] == a.0.task()); }
//@endfn
//@fn ds DynamicSlot::render
//@opt self=mut;; type=Pin<&mut Option<F>>->VxHeld<F>;; expr=pin!(None)->VxHeld::none();; pollfn=vx_between(&mut self.channel, w);; passto=poll:&mut self.channel;; passto=poll:w;; addparam=w: &mut World;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).channel.fits(), old(self).channel.1 is NoChange ==> old(self).channel.last() is None,
    ensures false, // [U01]
//@loop 0
    invariant
        agree(self.channel, fut_slot.v, completed), // [U01]
    ensures
        // it is rendered for as long as it is polled
        false, // [U01]
//@after vx_between(
    let ghost c0 = self.channel; let ghost h0 = fut_slot.v; let ghost done0 = completed; let ghost p0 = w.polls@; let ghost l0 = w.log@;
//@loopend 0
    proof {
        // what is held is what was asked last when the slot was polled
        assert(held(fut_slot.v) == c0.last()); // [U01]
        // it was polled, with the waker of the task, if it had not completed, and nothing else was
        assert(w.polls@ == (if to_poll(c0, h0, done0) { p0.push((c0.last().unwrap(), __cx.task())) } else { p0 })); // [U01]
        // from now on set_future and clear_future wake that task
        assert(self.channel.0.task() == __cx.task()); // [U01]
        // if they were called during the poll, they woke it
        assert(self.channel.2@.len() > c0.2@.len() ==> exists|i: int| l0.len() <= i < w.log@.len() && #[trigger] w.log@[i] == __cx.task()); // [U01]
    }
//@endfn
}
} // verus!
