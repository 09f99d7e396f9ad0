verus! {
// ======== trusted contracts: event targets, JS closures, wakers ========
/// a listener that is registered: where, for what, which function, with which options
pub struct Listener { pub target: int, pub name: int, pub cb: int, pub capture: bool, pub passive: bool }
/// the listeners there are; what has been woken so far; how many had been woken when the executor last ran
pub struct World { pub listeners: Ghost<Set<Listener>>, pub next: Ghost<int>, pub log: Ghost<Seq<int>>, pub ran: Ghost<int> }
impl World {
    pub open spec fn tidy(&self) -> bool { forall|l: Listener| #[trigger] self.listeners@.contains(l) ==> l.cb < self.next@ }
}
#[verifier::external_body]
pub struct Waker { x: u8 }
pub uninterp spec fn no_task() -> int;
impl Waker {
    pub uninterp spec fn task(&self) -> int;
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool)
        ensures r ==> self.task() == o.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(self.task()), final(w).listeners == old(w).listeners, final(w).next == old(w).next, final(w).ran == old(w).ran,
    { unimplemented!() }
    pub fn clone_from(&mut self, o: &Waker)
        ensures final(self).task() == o.task(),
    { *self = o.clone(); }
}
#[verifier::external_body]
pub fn dummy_waker() -> (r: Waker)
    ensures r.task() == no_task(),
{ unimplemented!() }
/// async_ui_web_core::executor::run_now: polls what has been woken
#[verifier::external_body]
pub fn run_now(w: &mut World)
    ensures final(w).ran@ == old(w).log@.len(), final(w).log == old(w).log,
{ unimplemented!() }
#[verifier::external_body]
pub struct Event { x: u8 }
pub trait JsCast: Sized { spec fn of(ev: Event) -> Self; }
impl Event {
    #[verifier::external_body]
    pub fn unchecked_into<E: JsCast>(self) -> (r: E)
        ensures r == E::of(self),
    { unimplemented!() }
}
/// Cow<'static, str>
#[verifier::external_body]
pub struct Name { x: u8 }
impl Name { pub uninterp spec fn id(&self) -> int; }
/// AddEventListenerOptions (an object held by one stream only)
pub struct AddEventListenerOptions { pub c: bool, pub p: bool }
impl AddEventListenerOptions {
    pub fn new() -> (r: Self) ensures !r.c, !r.p, { AddEventListenerOptions { c: false, p: false } }
    pub fn capture(&mut self, b: bool) -> (r: &mut Self)
        ensures (*r) == (AddEventListenerOptions { c: b, p: old(self).p }), *final(r) == *final(self),
    { self.c = b; self }
    pub fn passive(&mut self, b: bool) -> (r: &mut Self)
        ensures (*r) == (AddEventListenerOptions { c: old(self).c, p: b }), *final(r) == *final(self),
    { self.p = b; self }
}
pub trait VxOption<T>: Sized {
    fn vx_or_insert<F: FnOnce() -> T>(&mut self, f: F) -> (r: &mut T);
}
impl<T> VxOption<T> for Option<T> {
    #[verifier::external_body]
    fn vx_or_insert<F: FnOnce() -> T>(&mut self, f: F) -> (r: &mut T)
        ensures
            *old(self) is Some ==> *r == (*old(self)).unwrap(),
            *old(self) is None ==> f.ensures((), *r),
            *final(self) == Some(*final(r)),
    { unimplemented!() }
}
pub struct JsValue { x: u8 }
pub trait VxThrow<T>: Sized { spec fn good(&self) -> bool; fn unwrap_throw(self) -> T requires self.good(); }
impl<T> VxThrow<T> for Result<T, JsValue> {
    open spec fn good(&self) -> bool { self is Ok }
    fn unwrap_throw(self) -> T { match self { Ok(x) => x, Err(_) => vx_unreachable() } }
}
/// Closure<dyn Fn(Event)>: which function it is, and whose events it takes note of
#[verifier::external_body]
pub struct Closure { x: u8 }
impl Closure {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn cell(&self) -> int;
    /// the closure itself is vx_event below
    #[verifier::external_body]
    pub fn vx_new(cell: WeakCell, w: &mut World) -> (r: Self)
        ensures r.id() == old(w).next@, r.cell() == cell.id(), final(w).next@ == old(w).next@ + 1, final(w).listeners == old(w).listeners, final(w).log == old(w).log, final(w).ran == old(w).ran,
    { unimplemented!() }
    pub fn forget(self) {}
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Self) ensures r == self, { unimplemented!() }
    #[verifier::external_body]
    pub fn unchecked_ref(&self) -> (r: &Self) ensures r == self, { unimplemented!() }
}
#[verifier::external_body]
pub struct WeakCell { x: u8 }
impl WeakCell { pub uninterp spec fn id(&self) -> int; }
/// Rc<RefCell<(Option<E>, Waker)>>
pub struct Shared<E>(Option<E>, Waker, Ghost<int>);
impl<E> Shared<E> {
    spec fn id(&self) -> int { self.2@ }
    fn new(p: (Option<E>, Waker)) -> (r: Self) ensures r.0 == p.0, r.1 == p.1, { Shared(p.0, p.1, Ghost(0)) }
    #[verifier::external_body]
    fn downgrade(s: &Shared<E>) -> (r: WeakCell) ensures r.id() == s.id(), { unimplemented!() }
    fn borrow_mut(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(r) == *final(self), { self }
}
/// Weak<RefCell<(Option<E>, Waker)>>: what it leads to, if the stream is still there
struct Weak<E> { to: Option<Shared<E>> }
impl<E> Weak<E> {
    #[verifier::external_body]
    fn upgrade(&mut self) -> (r: Option<&mut Shared<E>>)
        ensures
            r is Some <==> old(self).to is Some,
            r is None ==> *final(self) == *old(self),
            r is Some ==> *r.unwrap() == old(self).to.unwrap() && final(self).to == Some(*final(r.unwrap())),
    { unimplemented!() }
}
pub fn vx_cell<T>(x: T) -> (r: T)
    ensures r == x,
{ x }
#[verifier::external_body]
pub struct EventTarget { x: u8 }
/// as it is told apart: by target, name, function and capture
pub open spec fn same_listener(l: Listener, target: int, name: int, cb: int, capture: bool) -> bool { l.target == target && l.name == name && l.cb == cb && l.capture == capture }
impl EventTarget {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: EventTarget) ensures r.id() == self.id(), { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: EventTarget) ensures r.id() == self.id(), { unimplemented!() }
    #[verifier::external_body]
    pub fn add_event_listener_with_callback_and_add_event_listener_options(&self, name: &Name, f: &Closure, o: &AddEventListenerOptions, w: &mut World) -> (r: Result<(), JsValue>)
        ensures
            r is Ok, final(w).next == old(w).next, final(w).log == old(w).log, final(w).ran == old(w).ran,
            final(w).listeners@ == (if exists|l: Listener| old(w).listeners@.contains(l) && #[trigger] same_listener(l, self.id(), name.id(), f.id(), o.c) { old(w).listeners@ } else { old(w).listeners@.insert(Listener { target: self.id(), name: name.id(), cb: f.id(), capture: o.c, passive: o.p }) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_event_listener_with_callback(&self, name: &Name, f: &Closure, w: &mut World) -> (r: Result<(), JsValue>)
        ensures
            r is Ok, final(w).next == old(w).next, final(w).log == old(w).log, final(w).ran == old(w).ran,
            final(w).listeners@ == (if exists|l: Listener| old(w).listeners@.contains(l) && #[trigger] same_listener(l, self.id(), name.id(), f.id(), false) { old(w).listeners@ } else { old(w).listeners@.insert(Listener { target: self.id(), name: name.id(), cb: f.id(), capture: false, passive: false }) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_event_listener_with_callback_and_bool(&self, name: &Name, f: &Closure, capture: bool, w: &mut World) -> (r: Result<(), JsValue>)
        ensures
            r is Ok, final(w).next == old(w).next, final(w).log == old(w).log, final(w).ran == old(w).ran,
            final(w).listeners@ == (if exists|l: Listener| old(w).listeners@.contains(l) && #[trigger] same_listener(l, self.id(), name.id(), f.id(), capture) { old(w).listeners@ } else { old(w).listeners@.insert(Listener { target: self.id(), name: name.id(), cb: f.id(), capture: capture, passive: false }) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_event_listener_with_callback_and_bool(&self, name: &Name, f: &Closure, capture: bool, w: &mut World) -> (r: Result<(), JsValue>)
        ensures
            r is Ok, final(w).next == old(w).next, final(w).log == old(w).log, final(w).ran == old(w).ran,
            forall|l: Listener| #[trigger] final(w).listeners@.contains(l) <==> old(w).listeners@.contains(l) && !same_listener(l, self.id(), name.id(), f.id(), capture),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_event_listener_with_callback(&self, name: &Name, f: &Closure, w: &mut World) -> (r: Result<(), JsValue>)
        ensures
            r is Ok, final(w).next == old(w).next, final(w).log == old(w).log, final(w).ran == old(w).ran,
            forall|l: Listener| #[trigger] final(w).listeners@.contains(l) <==> old(w).listeners@.contains(l) && !same_listener(l, self.id(), name.id(), f.id(), false),
    { unimplemented!() }
}
//@default pin
//@struct ev EventFutureStream
//@opt type=Closure<dyn Fn(Event)>->Closure;; type=Rc<RefCell<(Option<E>,Waker)>>->Shared<E>;; type=Cow<'static,str>->Name
//@endfn
impl<E> EventFutureStream<E> {
    /// the options asked for
    spec fn capturing(&self) -> bool { self.options matches Some(o) && o.c }
    spec fn passively(&self) -> bool { self.options matches Some(o) && o.p }
    spec fn mine(&self, cb: int) -> Listener { Listener { target: self.target.id(), name: self.event_name.id(), cb, capture: self.capturing(), passive: self.passively() } }
    /// once it has been polled, it has one listener, as was asked for, that takes note of its events
    spec fn good(&self, w: World) -> bool {
        &&& w.tidy()
        &&& self.capture == self.capturing()
        &&& self.closure matches Some(c) ==> c.cell() == self.shared.id() && w.listeners@.contains(self.mine(c.id())) && forall|l: Listener| #[trigger] w.listeners@.contains(l) && l.cb == c.id() ==> l == self.mine(c.id())
    }
}
impl<E: JsCast> EventFutureStream<E> {
//@fn ev EventFutureStream::new
//@opt type=Cow<'static,str>->Name;; path=Rc::new->Shared::new;; path=RefCell::new->vx_cell
//@spec
    ensures
        forall|w: World| w.tidy() ==> #[trigger] r.good(w), // [U02]
        r.closure is None, r.target == target, r.event_name == event_name, r.shared.0 is None, // [U02]
        !r.capturing(), !r.passively(), // [U02]
//@endfn
//@fn ev EventFutureStream::set_capture
//@opt rename=get_or_insert_with:vx_or_insert
//@spec
    requires old(self).closure is None,
    ensures
        final(self).capturing() == capture, final(self).passively() == old(self).passively(), // [U02]
        final(self).target == old(self).target, final(self).event_name == old(self).event_name, final(self).shared == old(self).shared, final(self).closure == old(self).closure, // [U02]
        forall|w: World| old(self).good(w) ==> #[trigger] final(self).good(w), // [U02]
//@endfn
//@fn ev EventFutureStream::set_passive
//@opt rename=get_or_insert_with:vx_or_insert
//@spec
    requires old(self).closure is None,
    ensures
        final(self).passively() == passive, final(self).capturing() == old(self).capturing(), // [U02]
        final(self).target == old(self).target, final(self).event_name == old(self).event_name, final(self).shared == old(self).shared, final(self).closure == old(self).closure, // [U02]
        forall|w: World| old(self).good(w) ==> #[trigger] final(self).good(w), // [U02]
//@endfn
//@fn ev EventFutureStream::Stream::poll_next
//@opt addparam=w: &mut World;; world=wake_by_ref,add_event_listener_with_callback_and_add_event_listener_options,add_event_listener_with_callback,add_event_listener_with_callback_and_bool;; path=Rc::downgrade->Shared::downgrade;; fnarg=Closure::new->Closure::vx_new(shared_weak, w);; ret=Poll<Option<E>>
//@spec
    requires old(self).good(*old(w)),
    ensures
        final(self).good(*final(w)), // [U02]
        // the task is woken by the next event
        final(self).shared.1.task() == old(cx).task(), // [U02]
        // the first poll, and no other, adds a listener, with the name and options asked for
        final(self).closure is Some, // [U02]
        old(self).closure is Some ==> final(w).listeners == old(w).listeners && final(self).closure == old(self).closure, // [U02]
        old(self).closure is None ==> final(w).listeners@ == old(w).listeners@.insert(final(self).mine(old(w).next@)) && final(self).closure.unwrap().id() == old(w).next@, // [U02]
        final(self).capturing() == old(self).capturing(), final(self).passively() == old(self).passively(), final(self).target == old(self).target, final(self).event_name == old(self).event_name, // [U02]
        // the last event not yet yielded, once
        old(self).closure is Some && old(self).shared.0 is Some ==> r == Poll::Ready(old(self).shared.0) && final(self).shared.0 is None, // [U02]
        old(self).closure is Some && old(self).shared.0 is None ==> r is Pending && final(self).shared.0 is None, // [U02]
        old(self).closure is None ==> r is Pending && final(self).shared.0 == old(self).shared.0, // [U02]
        final(self).shared.id() == old(self).shared.id(),
//@begin
    let ghost g0 = *self; let ghost w0 = *w;
//@endfn
//@fn ev EventFutureStream::Future::poll
//@opt addparam=w: &mut World;; world=poll_next;; ret=Poll<E>
//@spec
    requires old(self).good(*old(w)),
    ensures
        final(self).good(*final(w)), final(self).shared.1.task() == old(cx).task(), final(self).closure is Some, // [U02]
        old(self).closure is Some ==> final(w).listeners == old(w).listeners, // [U02]
        old(self).closure is None ==> final(w).listeners@ == old(w).listeners@.insert(final(self).mine(old(w).next@)), // [U02]
        old(self).closure is Some && old(self).shared.0 is Some ==> r == Poll::Ready(old(self).shared.0.unwrap()) && final(self).shared.0 is None, // [U02]
        old(self).closure is Some && old(self).shared.0 is None ==> r is Pending && final(self).shared.0 is None, // [U02]
        old(self).closure is None ==> r is Pending && final(self).shared.0 == old(self).shared.0, // [U02]
//@endfn
}
impl<E> EventFutureStream<E> {
//@fn ev EventFutureStream::Drop::drop
//@opt addparam=w: &mut World;; name=vx_drop;; world=remove_event_listener_with_callback_and_bool,remove_event_listener_with_callback
//@spec
    requires old(self).good(*old(w)),
    ensures
        // its listener is gone, the others are there
        old(self).closure matches Some(c) ==> forall|l: Listener| #[trigger] final(w).listeners@.contains(l) <==> old(w).listeners@.contains(l) && l.cb != c.id(), // [U02]
        old(self).closure is None ==> final(w).listeners == old(w).listeners, // [U02]
//@endfn
}
impl EventTarget {
//@fn ev EventTarget::EmitEvent::until_event
//@opt type=Cow<'static,str>->Name;; generics=<E: JsCast>
//@spec
    ensures r.target.id() == self.id(), r.event_name == name, r.closure is None, r.shared.0 is None, !r.capturing(), !r.passively(), forall|w: World| w.tidy() ==> #[trigger] r.good(w), // [U02]
//@endfn
}
/// what happens at an event
//@fn ev EventFutureStream::Stream::poll_next
//@opt closure=0;; sig=fn vx_event<E: JsCast>(shared_weak: &mut Weak<E>, $0, w: &mut World) -> ();; subst=web_sys::Event->Event;; type=web_sys::Event->Event;; world=wake_by_ref;; call=async_ui_web_core::executor::run_now->run_now;; world=run_now
//@spec
    ensures
        final(shared_weak).to is Some <==> old(shared_weak).to is Some,
        // the event is kept, in place of any other, and the task that polled last is woken, before the executor runs
        old(shared_weak).to matches Some(s) ==> final(shared_weak).to.unwrap().0 == Some(E::of(ev)) && final(shared_weak).to.unwrap().1 == s.1, // [U02]
        old(shared_weak).to matches Some(s) ==> exists|i: int| old(w).log@.len() <= i < final(w).ran@ && i < final(w).log@.len() && #[trigger] final(w).log@[i] == s.1.task(), // [U02]
//@begin
    let ghost to0 = shared_weak.to; let ghost l0 = w.log@;
//@end
    proof { if to0 is Some && w.log@.len() > l0.len() { assert(w.log@[w.log@.len() - 1] == to0.unwrap().1.task() || w.log@[l0.len() as int] == to0.unwrap().1.task()); } }
//@endfn
} // verus!
mod web_sys { pub use super::Event; }
