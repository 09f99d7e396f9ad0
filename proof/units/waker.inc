verus! {
// ======== trusted contract on core::task::Waker: it names a task; waking it is an event of the world ========
#[verifier::external_body]
pub struct Waker { x: u8 }
pub uninterp spec fn no_task() -> int;
pub enum Ev { Wake(int), Timer, Other(int), Poll(bool), Came(int, Seq<u32>, int), Gone(int, Seq<u32>) }
/// a raw pointer, told apart from others by its address only
#[verifier::external_body]
pub struct Ptr { x: u8 }
impl Ptr {
    pub uninterp spec fn addr(&self) -> int;
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool)
        ensures r == (self.addr() == 0),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_null() -> (r: Ptr)
    ensures r.addr() == 0,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_ptr_eq(a: Ptr, b: Ptr) -> (r: bool)
    ensures r == (a.addr() == b.addr()),
{ unimplemented!() }
/// Cell<*const T>
pub struct PtrCell { pub p: Ptr }
impl PtrCell {
    #[verifier::external_body]
    pub fn get(&self) -> (r: Ptr)
        ensures r == self.p,
    { unimplemented!() }
    pub fn set(&mut self, p: Ptr)
        ensures final(self).p == p,
    { self.p = p; }
}
/// the world: what has been woken, scheduled and so on so far; the children of every node of the document; the
/// thread local IS_DROPPING
pub struct World { pub log: Ghost<Seq<Ev>>, pub doc: Ghost<spec_fn(int) -> Seq<int>>, pub dropping: PtrCell }
impl World {
    pub open spec fn blocked(&self) -> bool { self.dropping.p.addr() != 0 }
    pub open spec fn kids(&self, n: int) -> Seq<int> { (self.doc@)(n) }
}
impl Waker {
    pub uninterp spec fn task(&self) -> int;
    #[verifier::external_body]
    pub fn will_wake(&self, o: &Waker) -> (r: bool)
        ensures r ==> self.task() == o.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Waker)
        ensures r.task() == self.task(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wake_by_ref(&self, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(Ev::Wake(self.task())), final(w).dropping == old(w).dropping, final(w).doc == old(w).doc,
    { unimplemented!() }
    pub fn clone_from(&mut self, o: &Waker)
        ensures final(self).task() == o.task(),
    { *self = o.clone(); }
}
/// async_ui_internal_utils::dummy_waker::dummy_waker: a waker that wakes nothing (unsafe vtable of no-ops)
#[verifier::external_body]
pub fn dummy_waker() -> (r: Waker)
    ensures r.task() == no_task(),
{ unimplemented!() }
/// the wakes of a sequence of tasks, in order
pub open spec fn wakes(ts: Seq<int>) -> Seq<Ev> { ts.map_values(|t: int| Ev::Wake(t)) }
} // verus!
