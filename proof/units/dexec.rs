//@include prelude.inc
//@include waker.inc
//@include task.inc
//@file exe async_ui_web_core/src/executor.rs
//@file wex async_ui_web/src/executor.rs
//@file mnt async_ui_web/src/mount.rs
verus! {
/// Cell<bool>
pub struct BoolCell { pub v: bool }
impl BoolCell {
    pub fn new(v: bool) -> (r: Self)
        ensures r.v == v,
    { BoolCell { v } }
    pub fn get(&self) -> (r: bool)
        ensures r == self.v,
    { self.v }
    pub fn set(&mut self, v: bool)
        ensures final(self).v == v,
    { self.v = v; }
    pub fn replace(&mut self, v: bool) -> (r: bool)
        ensures r == old(self).v, final(self).v == v,
    { let o = self.v; self.v = v; o }
}
// ======== trusted contract on the browser's timers ========
/// a JavaScript function; the one in use calls run_now
#[verifier::external_body]
pub struct Callback { x: u8 }
pub uninterp spec fn runs_now(c: Callback) -> bool;
#[verifier::external_body]
pub fn vx_callback_run_now() -> (r: Callback)
    ensures runs_now(r),
{ unimplemented!() }
#[verifier::external_body]
pub struct Window { x: u8 }
impl Window {
    /// Window.setTimeout(callback): the callback will be called, once, some time after the current one
    #[verifier::external_body]
    pub fn set_timeout_with_callback(&self, c: &Callback, w: &mut World) -> (r: Result<i32, i32>)
        requires runs_now(*c),
        ensures r is Ok, final(w).log@ == old(w).log@.push(Ev::Timer), final(w).dropping == old(w).dropping, final(w).doc == old(w).doc,
    { unimplemented!() }
}
pub trait VxExpect<T>: Sized {
    spec fn well(&self) -> bool;
    fn expect_throw(self, m: &str) -> (r: T)
        requires self.well();
}
impl<T, E> VxExpect<T> for Result<T, E> {
    open spec fn well(&self) -> bool { *self is Ok }
    fn expect_throw(self, m: &str) -> (r: T) { match self { Ok(t) => t, Err(_) => vstd::pervasive::unreached() } }
}
// ======== the root task ========
/// what may have happened to the flags while the root task was being polled: only schedule and run_now touch them
pub open spec fn during(s0: bool, a0: bool, l0: Seq<Ev>, s1: bool, a1: bool, l1: Seq<Ev>) -> bool { a0 && a1 && (s0 ==> s1) && l1 == l0 }
/// the root future: whatever it does, it does to this module only by calling schedule and run_now, any number of times
/// (that each such call is `during` is proved below); it is never polled but in a run, and each poll is an event that
/// says whether the task was woken meanwhile
#[verifier::external_body]
pub struct Root { x: u8 }
impl Root {
    pub fn as_mut(&mut self) -> (r: &mut Self)
        ensures *r == *old(self), *final(self) == *final(r),
    { self }
    #[verifier::external_body]
    pub fn poll(&mut self, cx: &mut Context<'_>, scheduled: &mut BoolCell, active: &mut BoolCell, w: &mut World) -> (r: Poll<()>)
        requires
            // not re-entered: a run is in progress, and what woke it has been taken note of
            old(active).v, !old(scheduled).v, // [D03]
        ensures
            during(old(scheduled).v, old(active).v, old(w).log@, final(scheduled).v, final(active).v, old(w).log@),
            final(w).log@ == old(w).log@.push(Ev::Poll(final(scheduled).v)),
    { unimplemented!() }
}
// ======== core::task: the waker of the root, a raw waker over a null pointer ========
pub enum VxFn { F0, F1, F2, F3 }
pub struct RawWakerVTable { pub clone: VxFn, pub wake: VxFn, pub wake_by_ref: VxFn, pub drop: VxFn }
impl RawWakerVTable {
    pub fn new(clone: VxFn, wake: VxFn, wake_by_ref: VxFn, drop: VxFn) -> (r: RawWakerVTable)
        ensures r.clone == clone, r.wake == wake, r.wake_by_ref == wake_by_ref, r.drop == drop,
    { RawWakerVTable { clone, wake, wake_by_ref, drop } }
}
pub struct RawWaker { pub data: Ptr, pub vt: &'static RawWakerVTable }
impl RawWaker {
    pub fn new(data: Ptr, vt: &'static RawWakerVTable) -> (r: RawWaker)
        ensures r.data == data, r.vt == vt,
    { RawWaker { data, vt } }
    /// its four functions are the four given to the vtable, in order
    spec fn root(&self) -> bool { self.vt.clone is F0 && self.vt.wake is F1 && self.vt.wake_by_ref is F2 && self.vt.drop is F3 }
}
#[verifier::external_body]
fn vx_static<T>(t: T) -> (r: &'static T)
    ensures *r == t,
{ unimplemented!() }
/// core::task::Waker made from a RawWaker
pub struct RootWaker { pub raw: RawWaker }
impl RootWaker {
    pub fn from_raw(raw: RawWaker) -> (r: RootWaker)
        ensures r.raw == raw,
    { RootWaker { raw } }
}
/// the context of a poll of the root: its waker is the root's
#[verifier::external_body]
fn vx_root_context<'a>(k: &RootWaker) -> (r: Context<'a>)
    requires k.raw.root(), // [D03]
{ unimplemented!() }
//@fn exe root_waker/new_raw_waker
//@opt rawptr;; vtable=VxFn::F0,VxFn::F1,VxFn::F2,VxFn::F3;; expr=core::ptr::null::<()>()->vx_null();; expr=null::<()>()->vx_null();; expr=ptr::null::<()>()->vx_null()
//@spec
    ensures r.root(),
//@endfn
//@fn exe root_waker
//@opt ret=RootWaker;; call=Waker::from_raw->RootWaker::from_raw
//@spec
    ensures r.raw.root(), // [D03]
//@endfn
//@struct exe ExecutorSingleton
//@opt type=Waker->RootWaker;; type=RefCell<Option<Pin<Box<dynFuture<Output=()>>>>>->Option<Root>;; type=Cell<bool>->BoolCell;; type=Closure<dynFn()>->Callback
//@endfn
/// the polls of one run: while it is woken meanwhile, again, and not otherwise
pub open spec fn polls(evs: Seq<Ev>) -> bool {
    &&& evs.len() > 0 && evs.last() == Ev::Poll(false)
    &&& forall|i: int| 0 <= i < evs.len() - 1 ==> #[trigger] evs[i] == Ev::Poll(true)
}
impl ExecutorSingleton {
    /// outside of a run
    spec fn idle(&self) -> bool { !self.active.v && runs_now(self.run_closure) && self.waker.raw.root() }
//@fn exe ExecutorSingleton::new
//@opt expr=RefCell::new(None)->None;; path=Cell::new->BoolCell::new;; expr=Closure::new(run_now)->vx_callback_run_now()
//@spec
    ensures r.idle(), !r.scheduled.v, r.future is None, // [D03]
//@endfn
}
//@fn exe set_executor_future
//@opt addparam=exe: &mut ExecutorSingleton;; tls=EXECUTOR:exe;; cell;; param=future: Root;; expr=future.into()->future
//@spec
    ensures final(exe).future == Some(future), final(exe).scheduled == old(exe).scheduled, final(exe).active == old(exe).active, final(exe).waker == old(exe).waker, final(exe).run_closure == old(exe).run_closure, // [D03]
//@endfn
//@fn exe run_now
//@opt addparam=exe: &mut ExecutorSingleton;; world=poll;; passto=poll:&mut exe.scheduled;; passto=poll:&mut exe.active;; tls=EXECUTOR:exe;; cell;; call=Context::from_waker->vx_root_context
//@opt attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(exe).waker.raw.root(),
    ensures
        // within a run: nothing
        old(exe).active.v ==> *final(exe) == *old(exe) && final(w).log == old(w).log, // [D03]
        // outside: polls as long as woken, and only then; nothing is owed afterwards
        !old(exe).active.v ==> {
            &&& !final(exe).active.v && !final(exe).scheduled.v // [D03]
            &&& old(exe).future is Some && old(exe).scheduled.v ==> old(w).log@.is_prefix_of(final(w).log@) && polls(final(w).log@.skip(old(w).log@.len() as int)) // [D03]
            &&& old(exe).future is None || !old(exe).scheduled.v ==> final(w).log == old(w).log // [D03]
        },
        final(exe).run_closure == old(exe).run_closure, final(exe).future is Some == old(exe).future is Some, final(exe).waker == old(exe).waker,
//@begin
    let ghost l0 = w.log@;
    let ghost s0 = exe.scheduled.v;
//@loop 0
    invariant
        exe.active.v, l0.is_prefix_of(w.log@), !old(exe).active.v, l0 == old(w).log@, s0 == old(exe).scheduled.v,
        exe.run_closure == old(exe).run_closure, exe.future is Some == old(exe).future is Some, exe.waker == old(exe).waker, exe.waker.raw.root(),
        exe.future is None || !s0 ==> w.log == old(w).log,
        !s0 ==> !exe.scheduled.v,
        exe.future is Some && s0 ==> ({
            let evs = w.log@.skip(l0.len() as int);
            &&& forall|i: int| 0 <= i < evs.len() - 1 ==> #[trigger] evs[i] == Ev::Poll(true)
            &&& evs.len() > 0 ==> evs.last() == Ev::Poll(exe.scheduled.v)
            &&& evs.len() == 0 ==> exe.scheduled.v
        }),
    ensures !exe.scheduled.v,
//@loopstart 0
    let ghost lk = w.log@;
//@loopend 0
    proof { if exe.future is Some && s0 { assert(w.log@.skip(l0.len() as int) =~= lk.skip(l0.len() as int).push(Ev::Poll(exe.scheduled.v))); } }
//@endfn
/// what a wake does: it is remembered, and there is one timer for all of them until the next run
spec fn noted(a: &ExecutorSingleton, b: &ExecutorSingleton, la: Seq<Ev>, lb: Seq<Ev>) -> bool {
    &&& b.scheduled.v && b.active == a.active && b.run_closure == a.run_closure && b.future == a.future && b.waker == a.waker
    &&& lb == if a.scheduled.v || a.active.v { la } else { la.push(Ev::Timer) }
}
//@fn exe schedule
//@opt addparam=exe: &mut ExecutorSingleton;; addparam=win: &Window;; world=set_timeout_with_callback;; tls=EXECUTOR:exe;; tls=WINDOW:win;; expr=exe.run_closure.as_ref().unchecked_ref()->&exe.run_closure
//@spec
    requires runs_now(old(exe).run_closure),
    ensures noted(old(exe), final(exe), old(w).log@, final(w).log@), // [D03]
//@endfn
/// the closures given to the vtable
//@fn exe root_waker/new_raw_waker
//@opt closure=0;; name=vx_root_clone;; sig=fn vx_root_clone(p: Ptr) -> (r: RawWaker)
//@spec
    ensures r.root(), // [D03]
//@endfn
//@fn exe root_waker/new_raw_waker
//@opt closure=1;; name=vx_root_wake;; sig=fn vx_root_wake(p: Ptr, exe: &mut ExecutorSingleton, win: &Window, w: &mut World);; expr=schedule()->schedule(w, exe, win)
//@spec
    requires runs_now(old(exe).run_closure),
    ensures noted(old(exe), final(exe), old(w).log@, final(w).log@), // [D03]
//@endfn
//@fn exe root_waker/new_raw_waker
//@opt closure=2;; name=vx_root_wake_by_ref;; sig=fn vx_root_wake_by_ref(p: Ptr, exe: &mut ExecutorSingleton, win: &Window, w: &mut World);; expr=schedule()->schedule(w, exe, win)
//@spec
    requires runs_now(old(exe).run_closure),
    ensures noted(old(exe), final(exe), old(w).log@, final(w).log@), // [D03]
//@endfn
//@fn exe root_waker/new_raw_waker
//@opt closure=3;; name=vx_root_drop;; sig=fn vx_root_drop(p: Ptr, exe: &mut ExecutorSingleton, win: &Window, w: &mut World);; expr=schedule()->schedule(w, exe, win)
//@spec
    ensures *final(exe) == *old(exe), final(w).log == old(w).log, // [D03]
//@endfn
// ======== the contract of core::task::Waker: each method is the call of its vtable entry ========
fn vx_waker_call(f: &VxFn, exe: &mut ExecutorSingleton, win: &Window, w: &mut World)
    requires runs_now(old(exe).run_closure),
    ensures
        f is F1 || f is F2 ==> noted(old(exe), final(exe), old(w).log@, final(w).log@),
        f is F0 || f is F3 ==> *final(exe) == *old(exe) && final(w).log == old(w).log,
{
    match f { VxFn::F0 => {} VxFn::F1 => { vx_root_wake(vx_null(), exe, win, w) } VxFn::F2 => { vx_root_wake_by_ref(vx_null(), exe, win, w) } VxFn::F3 => { vx_root_drop(vx_null(), exe, win, w) } }
}
fn vx_waker_clone(k: &RootWaker) -> (r: RootWaker)
    requires k.raw.root(),
    ensures r.raw.root(),
{ RootWaker { raw: vx_root_clone(vx_null()) } }
// ======== the contract assumed of a poll is what schedule and run_now do within a run ========
fn schedule_within(exe: &mut ExecutorSingleton, win: &Window, w: &mut World)
    requires old(exe).active.v, runs_now(old(exe).run_closure),
    ensures during(old(exe).scheduled.v, old(exe).active.v, old(w).log@, final(exe).scheduled.v, final(exe).active.v, final(w).log@), // [D03]
{ schedule(w, exe, win); }
fn run_within(exe: &mut ExecutorSingleton, w: &mut World)
    requires old(exe).active.v, old(exe).waker.raw.root(),
    ensures during(old(exe).scheduled.v, old(exe).active.v, old(w).log@, final(exe).scheduled.v, final(exe).active.v, final(w).log@), // [D03]
{ run_now(w, exe); }
proof fn during_trans(s0: bool, a0: bool, l0: Seq<Ev>, s1: bool, a1: bool, l1: Seq<Ev>, s2: bool, a2: bool, l2: Seq<Ev>)
    requires during(s0, a0, l0, s1, a1, l1), during(s1, a1, l1, s2, a2, l2),
    ensures during(s0, a0, l0, s2, a2, l2),
{}
// ======== every history ========
#[verifier::external_body]
fn any() -> u64 { unimplemented!() }
/// timers set since the given moment
spec fn timers(l: Seq<Ev>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { timers(l.drop_last()) + if l.last() is Timer { 1nat } else { 0 } } }
proof fn no_timers(l: Seq<Ev>)
    requires polls(l) || l.len() == 0,
    ensures timers(l) == 0,
{ if l.len() > 0 { assert forall|i: int| 0 <= i < l.len() implies !(#[trigger] l[i] is Timer) by { if i < l.len() - 1 { assert(l[i] == Ev::Poll(true)); } } no_timers_in(l); } }
proof fn no_timers_in(l: Seq<Ev>)
    requires forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i] is Timer),
    ensures timers(l) == 0,
    decreases l.len(),
{ if l.len() > 0 { assert(l[l.len() - 1] == l.last()); assert forall|i: int| 0 <= i < l.drop_last().len() implies !(#[trigger] l.drop_last()[i] is Timer) by { assert(l[i] == l.drop_last()[i]); } no_timers_in(l.drop_last()); } }
/// wakes and runs (timer callbacks call run_now like explicit ones) in any order, any number of times
#[verifier::exec_allows_no_decreases_clause]
fn history(exe: &mut ExecutorSingleton, win: &Window, w: &mut World)
    requires old(exe).idle(), !old(exe).scheduled.v, old(exe).future is Some, old(w).log@.len() == 0,
{
    let k = vx_waker_clone(&exe.waker);
    let ghost mut owed = false; // woken since it was last polled
    let ghost mut since = w.log@; // the log when the last run ended
    proof { reveal_with_fuel(timers, 2); assert(w.log@.skip(since.len() as int) =~= Seq::<Ev>::empty()); }
    loop
        invariant
            exe.idle(), exe.future is Some, k.raw.root(), exe.scheduled.v == owed,
            since.is_prefix_of(w.log@),
            // exactly one timer for all the wakes since the last run
            timers(w.log@.skip(since.len() as int)) == if owed { 1nat } else { 0 }, // [D03]
    {
        let what = any();
        if what < 4 {
            let ghost l = w.log@;
            // the waker given to the root, or a clone of a clone of it, woken or dropped; or an explicit schedule
            if what == 0 { schedule(w, exe, win); } else {
                let k = if any() == 0 { vx_waker_clone(&k) } else { let k = vx_waker_clone(&k); vx_waker_clone(&k) };
                if what == 1 { vx_waker_call(&k.raw.vt.wake, exe, win, w); } else if what == 2 { vx_waker_call(&k.raw.vt.wake_by_ref, exe, win, w); vx_waker_call(&k.raw.vt.drop, exe, win, w); } else { vx_waker_call(&k.raw.vt.drop, exe, win, w); continue; }
            }
            assert(exe.scheduled.v);
            proof {
                if !owed { assert(w.log@.skip(since.len() as int) =~= l.skip(since.len() as int).push(Ev::Timer)); assert(l.skip(since.len() as int).push(Ev::Timer).drop_last() =~= l.skip(since.len() as int)); }
                owed = true;
            }
        } else {
            let ghost l = w.log@;
            run_now(w, exe);
            proof {
                // polled because it was woken, and only then; afterwards nothing is owed
                if owed { assert(polls(w.log@.skip(l.len() as int))); } else { assert(w.log@ == l); } // [D03]
                owed = false; since = w.log@;
                assert(w.log@.skip(since.len() as int) =~= Seq::<Ev>::empty());
            }
        }
    }
}
// ======== the app's executor and mounting ========
/// async_executor::LocalExecutor, as this crate uses it
#[verifier::external_body]
pub struct LocalExecutor { x: u8 }
pub struct VxPending {}
fn pending() -> VxPending { VxPending {} }
pub struct Rooted { pub child: Ghost<int>, pub node: Ghost<int> }
pub struct Task { pub of: Ghost<int> }
/// a child of the container in this node
pub uninterp spec fn rooted(child: int, node: int) -> int;
impl LocalExecutor {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    /// a future that runs the tasks spawned on this executor
    #[verifier::external_body]
    fn run(&self, p: VxPending) -> (r: Root)
        ensures r.runs() == self.id(),
    { unimplemented!() }
    /// the task will be polled by whoever runs this executor
    #[verifier::external_body]
    fn spawn(&self, f: Rooted, w: &mut World) -> (r: Task)
        ensures r.of@ == rooted(f.child@, f.node@), final(w).log@ == old(w).log@.push(Ev::Other(r.of@)),
    { unimplemented!() }
}
impl Root { uninterp spec fn runs(&self) -> int; }
impl Task {
    /// dropping a task that was not detached cancels it
    #[verifier::external_body]
    fn detach(self, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(Ev::Other(-self.of@ - 1)),
    { unimplemented!() }
}
/// Box::leak, Box::new: the same value
fn vx_same<T>(t: T) -> (r: T)
    ensures r == t,
{ t }
/// ContainerNodeFuture::new_root (unit dnode): renders the child into the node
#[verifier::external_body]
fn vx_new_root(child: Ghost<int>, node: Ghost<int>) -> (r: Rooted)
    ensures r.child == child, r.node == node,
{ unimplemented!() }
/// what the first get_executor makes: the executor the root future runs
//@fn wex get_executor
//@opt closure=get_or_init;; name=vx_made;; sig=fn vx_made(exe0: &mut ExecutorSingleton) -> (r: LocalExecutor);; call=Box::leak->vx_same;; call=Box::new->vx_same;; expr=set_executor_future(Box::new(exe.run(pending())))->set_executor_future(exe.run(pending()), exe0)
//@spec
    ensures
        final(exe0).future is Some && final(exe0).future.unwrap().runs() == r.id(), // [D03]
        final(exe0).scheduled == old(exe0).scheduled, final(exe0).active == old(exe0).active, final(exe0).waker == old(exe0).waker, final(exe0).run_closure == old(exe0).run_closure,
//@endfn
//@fn mnt mount_at
//@opt generics=;; where=;; param=child_future: Ghost<int>;; param=node: Ghost<int>;; ret=Task;; call=ContainerNodeFuture::new_root->vx_new_root;; expr=get_executor()->ex;; world=spawn;; addparam=ex: &LocalExecutor;; addparam=exe: &mut ExecutorSingleton;; addparam=win: &Window;; expr=schedule()->schedule(w, exe, win)
//@spec
    requires runs_now(old(exe).run_closure),
    ensures
        // spawned, and woken: the root will be polled
        r.of@ == rooted(child_future@, node@), noted(old(exe), final(exe), old(w).log@.push(Ev::Other(r.of@)), final(w).log@), // [D03]
//@endfn
//@fn mnt mount
//@opt generics=;; where=;; param=child_future: Ghost<int>;; expr=DOCUMENT.with(|doc|doc.body().unwrap_throw().into())->body;; world=mount_at;; world=detach;; addparam=ex: &LocalExecutor;; addparam=exe: &mut ExecutorSingleton;; addparam=win: &Window;; addparam=body: Ghost<int>;; passcall=mount_at:ex;; passcall=mount_at:exe;; passcall=mount_at:win
//@spec
    requires runs_now(old(exe).run_closure),
    ensures
        // into the body, and kept
        final(exe).scheduled.v, final(w).log@.last() == Ev::Other(-rooted(child_future@, body@) - 1), final(w).log@.contains(Ev::Other(rooted(child_future@, body@))), // [D03]
//@end
    proof { assert(w.log@[old(w).log@.len() as int] == Ev::Other(rooted(child_future@, body@))); }
//@endfn
} // verus!
fn main() {}
