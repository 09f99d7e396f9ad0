//@include prelude.inc
//@include waker.inc
//@include vecs.inc
//@include ready.inc
//@file sa async_ui_web_core/src/combinators/utils/wakers/shared_arc.rs
//@file wa async_ui_web_core/src/combinators/utils/wakers/array/waker_array.rs
//@file wv async_ui_web_core/src/combinators/utils/wakers/vec/waker_vec.rs
verus! {
// ======== raw pointers, read as values ========
/// *const A, from Arc::into_raw or Weak::as_ptr: the allocation it points to
#[derive(Clone, Copy)]
pub struct APtr { pub a: Ghost<int> }
/// *const *const A, or the same pointer with its type erased: a place in a list of pointers
#[derive(Clone, Copy)]
pub struct SPtr { pub at: Ghost<int>, pub ix: Ghost<int> }
/// a list of pointers to A (an array, a Vec or a slice of them): where it lies, and what is in it. Two lists that
/// exist at the same time lie at different places.
#[verifier::external_body]
pub struct Slots { x: u8 }
impl Slots {
    pub uninterp spec fn at(&self) -> int;
    pub uninterp spec fn ptrs(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn as_ptr(&self) -> (r: SPtr)
        ensures r.at@ == self.at(), r.ix@ == 0,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self.ptrs().len(),
    { unimplemented!() }
}
impl SPtr {
    /// within the list or one past its end, else undefined: the caller of the unsafe fn promises it
    #[verifier::external_body]
    pub fn add(self, i: usize) -> (r: SPtr)
        ensures r.at@ == self.at@, r.ix@ == self.ix@ + i,
    { unimplemented!() }
    /// undefined unless both point into the same list
    #[verifier::external_body]
    pub fn offset_from(self, o: SPtr) -> (r: isize)
        requires self.at@ == o.at@, isize::MIN <= self.ix@ - o.ix@ <= isize::MAX,
        ensures r == self.ix@ - o.ix@,
    { unimplemented!() }
}
#[verifier::external_body]
fn vx_slots(p: APtr, n: usize) -> (r: Slots)
    ensures r.ptrs() == Seq::new(n as nat, |i: int| p.a@), n <= isize::MAX,
{ unimplemented!() }
#[verifier::external_body]
fn vx_static<T>(t: T) -> (r: &'static T)
    ensures *r == t,
{ unimplemented!() }
// ======== Mutex, Arc, Weak ========
/// std::sync::Mutex: which one it is, and what it was made with; the value it holds now is in the heap
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { x: core::marker::PhantomData<T> }
impl<T> Mutex<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn init(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self)
        ensures r.init() == t,
    { unimplemented!() }
    /// no thread panicked while it held the lock
    #[verifier::external_body]
    pub fn lock<'a>(&self, c: &'a mut Cells<T>) -> (r: Option<&'a mut T>)
        requires old(c).m@.dom().contains(self.id()),
        ensures r.is_some(), *r.unwrap() == old(c).m@[self.id()], final(c).m@ == old(c).m@.insert(self.id(), *final(r.unwrap())),
    { unimplemented!() }
}
/// what the mutexes hold
pub struct Cells<T> { pub m: Ghost<Map<int, T>> }
/// the allocations behind the Arcs that are alive: their content and their strong count; how many counts were given up
/// by mem::forget; what the mutexes hold; the world
pub struct Inside<R> { pub cells: Cells<R>, pub world: World }
pub struct Heap<A, R> { pub arcs: Ghost<Map<int, (A, int)>>, pub forgot: Ghost<Map<int, int>>, pub inside: Inside<R> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Arc<A> { x: core::marker::PhantomData<A> }
#[verifier::external_body]
#[verifier::reject_recursive_types(A)]
pub struct Weak<A> { x: core::marker::PhantomData<A> }
impl<A> Weak<A> {
    pub uninterp spec fn a(&self) -> int;
    #[verifier::external_body]
    pub fn as_ptr(w: &Weak<A>) -> (r: APtr)
        ensures r.a@ == w.a(),
    { unimplemented!() }
}
/// what the functions need of ReadinessArray and ReadinessVec (their contracts are in ready.inc)
trait Ready {
    spec fn ready_wf(&self) -> bool;
    spec fn ready_n(&self) -> nat;
    spec fn ready_list(&self) -> Seq<usize>;
    spec fn ready_parent(&self) -> int;
}
impl<const N: usize> Ready for ReadinessArray<N> {
    spec fn ready_wf(&self) -> bool { self.wf() }
    spec fn ready_n(&self) -> nat { self.n() }
    spec fn ready_list(&self) -> Seq<usize> { self.list() }
    spec fn ready_parent(&self) -> int { self.parent() }
}
impl Ready for ReadinessVec {
    spec fn ready_wf(&self) -> bool { self.wf() }
    spec fn ready_n(&self) -> nat { self.n() }
    spec fn ready_list(&self) -> Seq<usize> { self.list() }
    spec fn ready_parent(&self) -> int { self.parent() }
}
/// b is a after child i woke
spec fn noted<R: Ready>(a: R, b: R, i: usize) -> bool {
    b.ready_wf() && b.ready_n() == a.ready_n() && b.ready_parent() == a.ready_parent() && b.ready_list() == woken(a.ready_list(), i)
}
trait SharedArcContent: Sized + 'static {
    type R: Ready;
    spec fn slots(&self) -> Slots;
    spec fn cell(&self) -> Mutex<Self::R>;
    fn get_redirect_slice(&self) -> (r: &Slots)
        ensures *r == self.slots();
    fn wake_index(&self, index: usize, w: &mut Inside<Self::R>)
        requires
            old(w).cells.m@.dom().contains(self.cell().id()),
            old(w).cells.m@[self.cell().id()].ready_wf(), index < old(w).cells.m@[self.cell().id()].ready_n(),
        ensures
            woke(*old(w), *final(w), self.cell().id(), index);
}
/// child i of the bookkeeping in mutex c woke, and nothing else changed
spec fn woke<R: Ready>(a: Inside<R>, b: Inside<R>, c: int, i: usize) -> bool {
    &&& b.cells.m@ == a.cells.m@.insert(c, b.cells.m@[c])
    &&& noted(a.cells.m@[c], b.cells.m@[c], i)
    &&& b.world.log@ == a.world.log@ + wake_log(a.cells.m@[c].ready_list(), i, a.cells.m@[c].ready_parent())
}
impl<A> Heap<A, A::R> where A: SharedArcContent {
    spec fn live(&self, a: int) -> bool { self.arcs@.dom().contains(a) }
    spec fn content(&self, a: int) -> A { self.arcs@[a].0 }
    spec fn count(&self, a: int) -> int { self.arcs@[a].1 }
    spec fn rd(&self, a: int) -> A::R { self.inside.cells.m@[self.content(a).cell().id()] }
    /// p is the place of child i in the list of allocation a
    spec fn points(&self, p: SPtr, a: int, i: int) -> bool {
        &&& self.live(a) && p.at@ == self.content(a).slots().at()
        &&& p.ix@ == i && 0 <= i < self.content(a).slots().ptrs().len()
    }
    spec fn one(&self, a: int) -> bool {
        let c = self.content(a);
        &&& self.count(a) > 0
        &&& c.slots().ptrs().len() <= isize::MAX
        &&& forall|i: int| 0 <= i < c.slots().ptrs().len() ==> #[trigger] c.slots().ptrs()[i] == a
        &&& self.inside.cells.m@.dom().contains(c.cell().id())
        &&& self.rd(a).ready_wf() && self.rd(a).ready_n() == c.slots().ptrs().len()
    }
    spec fn apart(&self, a: int, b: int) -> bool {
        &&& self.content(a).cell().id() != self.content(b).cell().id()
        &&& self.content(a).slots().ptrs().len() > 0 && self.content(b).slots().ptrs().len() > 0 ==> self.content(a).slots().at() != self.content(b).slots().at()
    }
    /// every allocation's list points back to it, its bookkeeping has a place for every child, and no two share either
    spec fn ok(&self) -> bool {
        &&& forall|a: int| #[trigger] self.live(a) ==> self.one(a)
        &&& forall|a: int, b: int| #[trigger] self.live(a) && #[trigger] self.live(b) && a != b ==> self.apart(a, b)
    }
    /// the allocation a and its bookkeeping are as they were
    spec fn same(&self, o: &Self, a: int) -> bool { o.live(a) && self.live(a) && self.arcs@[a] == o.arcs@[a] && self.rd(a) == o.rd(a) && self.forgot@[a] == o.forgot@[a] }
    /// nothing but allocation a changed
    spec fn others(&self, o: &Self, a: int) -> bool {
        forall|b: int| b != a && #[trigger] o.live(b) ==> self.same(o, b)
    }
}
/// reading a place of a list: the list must still be there
#[verifier::external_body]
fn vx_read<A: SharedArcContent>(p: SPtr, w: &Heap<A, A::R>) -> (r: APtr)
    requires exists|a: int, i: int| w.points(p, a, i),
    ensures forall|a: int, i: int| #[trigger] w.points(p, a, i) ==> r.a@ == w.content(a).slots().ptrs()[i],
{ unimplemented!() }
/// the content of an Arc that is alive (it is not moved while it is)
#[verifier::external_body]
fn vx_deref<'a, A: SharedArcContent>(p: APtr, w: &Heap<A, A::R>) -> (r: &'a A)
    requires w.live(p.a@),
    ensures *r == w.content(p.a@),
{ unimplemented!() }
spec fn counted<A, R>(m: Map<int, (A, int)>, a: int, d: int) -> Map<int, (A, int)> {
    if m[a].1 + d > 0 { m.insert(a, (m[a].0, m[a].1 + d)) } else { m.remove(a) }
}
impl<A: SharedArcContent> Arc<A> {
    uninterp spec fn a(&self) -> int;
    #[verifier::external_body]
    fn vx_clone(p: &Arc<A>, w: &mut Heap<A, A::R>) -> (r: Arc<A>)
        requires old(w).live(p.a()),
        ensures r.a() == p.a(), final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, p.a(), 1), final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
    { unimplemented!() }
    fn clone(p: &Arc<A>, w: &mut Heap<A, A::R>) -> (r: Arc<A>)
        requires old(w).ok(), old(w).live(p.a()),
        ensures
            r.a() == p.a(), final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, p.a(), 1), final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
            final(w).ok(), final(w).others(old(w), p.a()), final(w).live(p.a()), final(w).content(p.a()) == old(w).content(p.a()),
    {
        let r = Arc::vx_clone(p, w);
        proof { assert(old(w).one(p.a())); counted_at(*old(w), *w, p.a(), 1); }
        r
    }
    #[verifier::external_body]
    fn increment_strong_count(p: APtr, w: &mut Heap<A, A::R>)
        requires old(w).live(p.a@),
        ensures final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, p.a@, 1), final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
    { unimplemented!() }
    #[verifier::external_body]
    fn decrement_strong_count(p: APtr, w: &mut Heap<A, A::R>)
        requires old(w).live(p.a@),
        ensures final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, p.a@, -1), final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
    { unimplemented!() }
    fn get_redirect_slice(&self, w: &Heap<A, A::R>) -> (r: &'static Slots)
        requires w.live(self.a()),
        ensures *r == w.content(self.a()).slots(),
    { vx_content(self, w).get_redirect_slice() }
}
/// Deref of Arc
#[verifier::external_body]
fn vx_content<'a, A: SharedArcContent>(p: &Arc<A>, w: &Heap<A, A::R>) -> (r: &'a A)
    requires w.live(p.a()),
    ensures *r == w.content(p.a()),
{ unimplemented!() }
/// mem::forget: its strong count stays and is owed by whoever forgot it
#[verifier::external_body]
fn vx_forget<A: SharedArcContent>(p: Arc<A>, w: &mut Heap<A, A::R>)
    ensures final(w).arcs == old(w).arcs, final(w).forgot@ == old(w).forgot@.insert(p.a(), old(w).forgot@[p.a()] + 1), final(w).inside == old(w).inside,
{ unimplemented!() }
/// Arc::new_cyclic: the memory is there before the content, which the closure makes knowing where
#[verifier::external_body]
fn vx_reserve<A: SharedArcContent>(w: &mut Heap<A, A::R>) -> (r: Weak<A>)
    ensures !final(w).live(r.a()), *final(w) == *old(w),
{ unimplemented!() }
#[verifier::external_body]
fn vx_place<A: SharedArcContent>(k: Weak<A>, c: A, w: &mut Heap<A, A::R>) -> (r: Arc<A>)
    requires !old(w).live(k.a()),
    ensures
        r.a() == k.a(), final(w).arcs@ == old(w).arcs@.insert(k.a(), (c, 1int)), final(w).forgot@ == old(w).forgot@.insert(k.a(), 0int), final(w).inside.world == old(w).inside.world,
        final(w).inside.cells.m@ == old(w).inside.cells.m@.insert(c.cell().id(), c.cell().init()),
        // the list and the mutex were just made, so they are not those of another allocation
        forall|b: int| #[trigger] old(w).live(b) ==> final(w).apart(k.a(), b) && final(w).apart(b, k.a()),
{ unimplemented!() }
// ======== core::task: RawWaker, its vtable, Waker ========
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum VxFn { CloneWaker, Wake, WakeByRef, DropWaker }
#[derive(Clone, Copy)]
pub struct RawWakerVTable { pub clone: VxFn, pub wake: VxFn, pub wake_by_ref: VxFn, pub drop: VxFn }
impl RawWakerVTable {
    pub fn new(clone: VxFn, wake: VxFn, wake_by_ref: VxFn, drop: VxFn) -> (r: RawWakerVTable)
        ensures r.clone == clone, r.wake == wake, r.wake_by_ref == wake_by_ref, r.drop == drop,
    { RawWakerVTable { clone, wake, wake_by_ref, drop } }
}
pub struct RawWaker { pub data: SPtr, pub vt: &'static RawWakerVTable }
impl RawWaker {
    pub fn new(data: SPtr, vt: &'static RawWakerVTable) -> (r: RawWaker)
        ensures r.data == data, r.vt == vt,
    { RawWaker { data, vt } }
    spec fn good(&self) -> bool { self.vt.clone == VxFn::CloneWaker && self.vt.wake == VxFn::Wake && self.vt.wake_by_ref == VxFn::WakeByRef && self.vt.drop == VxFn::DropWaker }
}
/// core::task::Waker made from a RawWaker
pub struct ChildWaker { pub raw: RawWaker }
impl ChildWaker {
    pub fn from_raw(raw: RawWaker) -> (r: ChildWaker)
        ensures r.raw == raw,
    { ChildWaker { raw } }
    /// the waker of child i of allocation a
    spec fn of<A: SharedArcContent>(&self, w: &Heap<A, A::R>, a: int, i: int) -> bool { self.raw.good() && w.points(self.raw.data, a, i) }
}
} // verus!
verus! {
//@fn sa waker_from_redirect_position/clone_waker
//@opt rawptr;; type=*const()->SPtr;; type=*const A->APtr;; type=*const APtr->SPtr;; world=increment_strong_count,decrement_strong_count,wake_by_ref,drop_waker,clone_waker;; addparam=w: &mut Heap<A, A::R>;; call=Arc::increment_strong_count->Arc::<A>::increment_strong_count;; call=Arc::decrement_strong_count->Arc::<A>::decrement_strong_count
//@spec
    requires old(w).ok(), exists|a: int, i: int| old(w).points(pointer, a, i),
    ensures
        final(w).ok(), r.good(), r.data == pointer,
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).points(pointer, a, i) && final(w).content(a) == old(w).content(a) && final(w).others(old(w), a),
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).count(a) == old(w).count(a) + 1, // [C04]
        final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
//@end
    proof { counted_ok(*old(w), *w, pointer, 1); }
//@endfn
//@fn sa waker_from_redirect_position/wake_by_ref
//@opt rawptr;; type=*const()->SPtr;; type=*const A->APtr;; type=*const APtr->SPtr;; passto=wake_index:&mut w.inside;; addparam=w: &mut Heap<A, A::R>
//@spec
    requires old(w).ok(), exists|a: int, i: int| old(w).points(pointer, a, i),
    ensures
        final(w).ok(), final(w).arcs == old(w).arcs, final(w).forgot == old(w).forgot,
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).points(pointer, a, i),
        // exactly the child whose waker this is
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> woke(old(w).inside, final(w).inside, old(w).content(a).cell().id(), i as usize) && final(w).others(old(w), a),
//@end
    proof { woke_ok(*old(w), *w, pointer); }
//@endfn
//@fn sa waker_from_redirect_position/drop_waker
//@opt rawptr;; type=*const()->SPtr;; type=*const A->APtr;; type=*const APtr->SPtr;; world=increment_strong_count,decrement_strong_count,wake_by_ref,drop_waker,clone_waker;; addparam=w: &mut Heap<A, A::R>;; call=Arc::decrement_strong_count->Arc::<A>::decrement_strong_count;; call=Arc::increment_strong_count->Arc::<A>::increment_strong_count
//@spec
    requires old(w).ok(), exists|a: int, i: int| old(w).points(pointer, a, i),
    ensures
        final(w).ok(),
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).others(old(w), a),
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, a, -1), // [C04]
        final(w).forgot == old(w).forgot, final(w).inside == old(w).inside,
//@end
    proof { counted_ok(*old(w), *w, pointer, -1); }
//@endfn
//@fn sa waker_from_redirect_position/wake
//@opt rawptr;; type=*const()->SPtr;; type=*const A->APtr;; type=*const APtr->SPtr;; world=increment_strong_count,decrement_strong_count,wake_by_ref,drop_waker,clone_waker;; passto=wake_index:&mut w.inside;; addparam=w: &mut Heap<A, A::R>;; call=Arc::increment_strong_count->Arc::<A>::increment_strong_count;; call=Arc::decrement_strong_count->Arc::<A>::decrement_strong_count
//@spec
    requires old(w).ok(), exists|a: int, i: int| old(w).points(pointer, a, i),
    ensures
        final(w).ok(), final(w).forgot == old(w).forgot,
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> woke(old(w).inside, final(w).inside, old(w).content(a).cell().id(), i as usize) && final(w).others(old(w), a),
        forall|a: int, i: int| #[trigger] old(w).points(pointer, a, i) ==> final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, a, -1), // [C04]
//@endfn
//@fn sa waker_from_redirect_position/create_vtable
//@opt rawptr;; expr=clone_waker::<A>->VxFn::CloneWaker;; expr=wake::<A>->VxFn::Wake;; expr=wake_by_ref::<A>->VxFn::WakeByRef;; expr=drop_waker::<A>->VxFn::DropWaker
//@spec
    ensures r.clone == VxFn::CloneWaker, r.wake == VxFn::Wake, r.wake_by_ref == VxFn::WakeByRef, r.drop == VxFn::DropWaker,
//@endfn
//@fn sa waker_from_redirect_position
//@opt rawptr;; type=*const()->SPtr;; type=*const A->APtr;; type=*const APtr->SPtr;; type=&[APtr]->&Slots;; passto=get_redirect_slice:w;; addparam=w: &mut Heap<A, A::R>;; call=forget->vx_forget;; world=forget;; ret=ChildWaker;; call=Waker::from_raw->ChildWaker::from_raw
//@spec
    requires old(w).ok(), old(w).live(arc.a()), index < old(w).content(arc.a()).slots().ptrs().len(),
    ensures
        final(w).ok(), final(w).others(old(w), arc.a()), // [C04]
        r.of(final(w), arc.a(), index as int), final(w).arcs == old(w).arcs, final(w).inside == old(w).inside,
        // the count of the Arc given is the waker's now
        final(w).forgot@ == old(w).forgot@.insert(arc.a(), old(w).forgot@[arc.a()] + 1), // [C04]
//@end
    proof { forgot_ok(*old(w), *w, arc.a()); }
//@endfn
proof fn forgot_ok<A: SharedArcContent>(o: Heap<A, A::R>, n: Heap<A, A::R>, a: int)
    requires o.ok(), n.arcs == o.arcs, n.inside == o.inside, n.forgot@ == o.forgot@.insert(a, o.forgot@[a] + 1), // [C04]
    ensures n.ok(), n.others(&o, a),
{
    assert forall|b: int| #[trigger] n.live(b) implies n.one(b) by { assert(o.live(b)); assert(o.one(b)); }
    assert forall|b: int, c: int| #[trigger] n.live(b) && #[trigger] n.live(c) && b != c implies n.apart(b, c) by { assert(o.live(b) && o.live(c)); assert(o.apart(b, c)); }
}
proof fn counted_at<A: SharedArcContent>(o: Heap<A, A::R>, n: Heap<A, A::R>, a: int, d: int)
    requires o.ok(), o.live(a), n.arcs@ == counted::<A, A::R>(o.arcs@, a, d), n.inside == o.inside, n.forgot == o.forgot,
    ensures n.ok(), n.others(&o, a),
{
    assert forall|b: int| #[trigger] n.live(b) implies n.one(b) by { assert(o.live(b)); assert(o.one(b)); }
    assert forall|b: int, c: int| #[trigger] n.live(b) && #[trigger] n.live(c) && b != c implies n.apart(b, c) by { assert(o.live(b) && o.live(c)); assert(o.apart(b, c)); }
}
proof fn counted_ok<A: SharedArcContent>(o: Heap<A, A::R>, n: Heap<A, A::R>, p: SPtr, d: int)
    requires o.ok(), forall|a: int, i: int| #[trigger] o.points(p, a, i) ==> n.arcs@ == counted::<A, A::R>(o.arcs@, a, d), // [C04]
        exists|a: int, i: int| o.points(p, a, i), n.inside == o.inside, n.forgot == o.forgot,
    ensures n.ok(), forall|a: int, i: int| #[trigger] o.points(p, a, i) ==> n.others(&o, a),
{
    let (a, i) = choose|a: int, i: int| o.points(p, a, i);
    counted_at(o, n, a, d);
    assert forall|a2: int, i: int| #[trigger] o.points(p, a2, i) implies n.others(&o, a2) by { assert(o.live(a2)); counted_at(o, n, a2, d); }
}
proof fn woke_ok<A: SharedArcContent>(o: Heap<A, A::R>, n: Heap<A, A::R>, p: SPtr)
    requires o.ok(), forall|a: int, i: int| #[trigger] o.points(p, a, i) ==> woke(o.inside, n.inside, o.content(a).cell().id(), i as usize), exists|a: int, i: int| o.points(p, a, i), n.arcs == o.arcs, n.forgot == o.forgot,
    ensures n.ok(), forall|a: int, i: int| #[trigger] o.points(p, a, i) ==> n.others(&o, a),
{
    let (a, i) = choose|a: int, i: int| o.points(p, a, i);
    assert(o.live(a));
    assert forall|b: int| #[trigger] n.live(b) implies n.one(b) by { assert(o.live(b)); assert(o.one(b)); if b != a { assert(o.apart(a, b)); } }
    assert forall|b: int, c: int| #[trigger] n.live(b) && #[trigger] n.live(c) && b != c implies n.apart(b, c) by { assert(o.live(b) && o.live(c)); assert(o.apart(b, c)); }
    assert forall|a: int, i: int| #[trigger] o.points(p, a, i) implies n.others(&o, a) by {
        assert(o.live(a));
        assert forall|b: int| b != a && #[trigger] o.live(b) implies n.same(&o, b) by { assert(o.apart(a, b)); }
    }
}
// ======== the two contents ========
//@struct wa WakerArrayInner
//@opt type=*const Self->APtr;; type=[APtr; N]->Slots;; attr=#[verifier::reject_recursive_types(N)]
//@endfn
impl<const N: usize> SharedArcContent for WakerArrayInner<N> {
    type R = ReadinessArray<N>;
    spec fn slots(&self) -> Slots { self.redirect }
    spec fn cell(&self) -> Mutex<ReadinessArray<N>> { self.readiness }
//@fn wa WakerArrayInner::SharedArcContent::get_redirect_slice
//@opt type=*const Self->APtr;; type=[APtr]->Slots
//@endfn
//@fn wa WakerArrayInner::SharedArcContent::wake_index
//@opt passto=readiness.lock:&mut w.cells;; passto=wake:&mut w.world;; addparam=w: &mut Inside<ReadinessArray<N>>
//@endfn
}
//@struct wv WakerVecInner
//@opt type=*const Self->APtr;; type=Vec<APtr>->Slots
//@endfn
impl SharedArcContent for WakerVecInner {
    type R = ReadinessVec;
    spec fn slots(&self) -> Slots { self.redirect }
    spec fn cell(&self) -> Mutex<ReadinessVec> { self.readiness }
//@fn wv WakerVecInner::SharedArcContent::get_redirect_slice
//@opt type=*const Self->APtr;; type=[APtr]->Slots
//@endfn
//@fn wv WakerVecInner::SharedArcContent::wake_index
//@opt passto=readiness.lock:&mut w.cells;; passto=wake:&mut w.world;; addparam=w: &mut Inside<ReadinessVec>
//@endfn
}
// ======== their construction ========
/// a new allocation, held by r alone, with the bookkeeping of n children that are all awake
spec fn placed<A: SharedArcContent>(o: Heap<A, A::R>, w: Heap<A, A::R>, r: Arc<A>, n: int) -> bool {
    let a = r.a();
    &&& w.ok() && w.live(a) && !o.live(a) && w.others(&o, a)
    &&& w.content(a).slots().ptrs().len() == n
    &&& w.count(a) == 1 && w.forgot@[a] == 0
    &&& w.rd(a).ready_list() == upto(n as nat)
    &&& w.inside.world == o.inside.world
}
proof fn placed_ok<A: SharedArcContent>(o: Heap<A, A::R>, w: Heap<A, A::R>, r: Arc<A>)
    requires
        o.ok(), !o.live(r.a()), w.live(r.a()), w.one(r.a()), w.arcs@ == o.arcs@.insert(r.a(), w.arcs@[r.a()]), w.forgot@ == o.forgot@.insert(r.a(), 0int),
        forall|b: int| #[trigger] o.live(b) ==> w.apart(r.a(), b) && w.apart(b, r.a()),
        w.inside.cells.m@ == o.inside.cells.m@.insert(w.content(r.a()).cell().id(), w.rd(r.a())),
    ensures w.ok(), w.others(&o, r.a()),
{
    assert forall|b: int| #[trigger] w.live(b) implies w.one(b) by { if b != r.a() { assert(o.live(b)); assert(o.one(b)); assert(w.apart(b, r.a())); } }
    assert forall|b: int, c: int| #[trigger] w.live(b) && #[trigger] w.live(c) && b != c implies w.apart(b, c) by {
        if b != r.a() { assert(o.live(b)); }
        if c != r.a() { assert(o.live(c)); }
        if b != r.a() && c != r.a() { assert(o.apart(b, c)); }
    }
    assert forall|b: int| b != r.a() && #[trigger] o.live(b) implies w.same(&o, b) by { assert(w.apart(b, r.a())); }
}
/// n wakers of allocation a were made, each holding one strong count
spec fn each<A: SharedArcContent>(o: Heap<A, A::R>, w: Heap<A, A::R>, a: int, v: Seq<ChildWaker>, n: int) -> bool {
    &&& w.ok() && w.live(a) && w.others(&o, a) && w.inside == o.inside && w.content(a) == o.content(a)
    &&& w.count(a) == o.count(a) + n && w.forgot@[a] == o.forgot@[a] + n
    &&& v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).of(&w, a, i)
}
proof fn each_next<A: SharedArcContent>(o: Heap<A, A::R>, w1: Heap<A, A::R>, w: Heap<A, A::R>, a: int, v: Seq<ChildWaker>, k: ChildWaker, n: int)
    requires
        each(o, w1, a, v, n), n >= 0, o.live(a), o.count(a) > 0, w.ok(), k.of(&w, a, n), w.others(&w1, a), w.inside == w1.inside,
        w.arcs@ == counted::<A, A::R>(w1.arcs@, a, 1), w.forgot@ == w1.forgot@.insert(a, w1.forgot@[a] + 1),
    ensures each(o, w, a, v.push(k), n + 1),
{
    assert forall|b: int| b != a && #[trigger] o.live(b) implies w.same(&o, b) by { assert(w1.same(&o, b)); assert(w.same(&w1, b)); }
    assert forall|i: int| 0 <= i < n + 1 implies (#[trigger] v.push(k)[i]).of(&w, a, i) by { if i < n { assert(v[i].of(&w1, a, i)); } }
}
#[verifier::external_body]
fn vx_array_of<T, const N: usize>(v: Vec<T>) -> (r: [T; N])
    requires v@.len() == N,
    ensures r@ == v@,
{ unimplemented!() }
/// the combinator keeps one strong count, every waker one
spec fn fresh<A: SharedArcContent>(o: &Heap<A, A::R>, w: &Heap<A, A::R>, inner: &Arc<A>, wakers: Seq<ChildWaker>, n: int) -> bool {
    let a = inner.a();
    &&& w.ok() && w.live(a) && !o.live(a) && w.others(o, a)
    &&& w.content(a).slots().ptrs().len() == n
    &&& wakers.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] wakers[i]).of(w, a, i)
    &&& w.count(a) == n + 1 && w.forgot@[a] == n
    &&& w.rd(a).ready_list() == upto(n as nat)
    &&& w.inside.world == o.inside.world
}
//@struct wa WakerArray
//@opt type=Waker->ChildWaker;; attr=#[verifier::reject_recursive_types(N)]
//@endfn
impl<const N: usize> WakerArrayInner<N> {
/// the closure given to Arc::new_cyclic
//@fn wa WakerArray::new
//@opt rawptr;; closure=0;; name=vx_made;; sig=fn vx_made($0: &Weak<WakerArrayInner<N>>) -> (r: WakerArrayInner<N>)
//@spec
    ensures r.redirect.ptrs() == Seq::new(N as nat, |i: int| $0.a()), r.readiness.init().wf(), r.readiness.init().list() == upto(N as nat), N <= isize::MAX,
//@endfn
}
/// Arc::new_cyclic
fn vx_cyclic_array<const N: usize>(w: &mut Heap<WakerArrayInner<N>, ReadinessArray<N>>) -> (r: Arc<WakerArrayInner<N>>)
    requires old(w).ok(),
    ensures placed(*old(w), *final(w), r, N as int),
{
    let k = vx_reserve(w);
    let c = WakerArrayInner::<N>::vx_made(&k);
    let ghost n0 = c.readiness.init();
    let r = vx_place(k, c, w);
    proof { placed_ok(*old(w), *w, r); }
    r
}
/// array::from_fn calls the closure for 0, 1, .. N - 1, in that order
fn vx_each_array<const N: usize>(inner: &Arc<WakerArrayInner<N>>, w: &mut Heap<WakerArrayInner<N>, ReadinessArray<N>>) -> (r: [ChildWaker; N])
    requires old(w).ok(), old(w).live(inner.a()), old(w).content(inner.a()).slots().ptrs().len() == N, old(w).count(inner.a()) > 0,
    ensures each(*old(w), *final(w), inner.a(), r@, N as int),
{
    let mut v: Vec<ChildWaker> = Vec::new();
    let mut i: usize = 0;
    while i < N
        invariant
            i <= N, old(w).ok(), old(w).live(inner.a()), old(w).content(inner.a()).slots().ptrs().len() == N, old(w).count(inner.a()) > 0,
            each(*old(w), *w, inner.a(), v@, i as int),
        decreases N - i,
    {
        let ghost (w1, v1) = (*w, v@);
        let k = WakerArray::<N>::vx_waker(i, inner, w);
        v.push(k);
        proof { each_next(*old(w), w1, *w, inner.a(), v1, k, i as int); }
        i = i + 1;
    }
    vx_array_of(v)
}
impl<const N: usize> WakerArray<N> {
/// the closure given to array::from_fn
//@fn wa WakerArray::new
//@opt closure=1;; name=vx_waker;; sig=fn vx_waker($0: usize, inner: &Arc<WakerArrayInner<N>>, w: &mut Heap<WakerArrayInner<N>, ReadinessArray<N>>) -> (r: ChildWaker);; world=waker_from_redirect_position;; world=clone
//@spec
    requires old(w).ok(), old(w).live(inner.a()), $0 < old(w).content(inner.a()).slots().ptrs().len(),
    ensures
        final(w).ok(), r.of(final(w), inner.a(), $0 as int), final(w).others(old(w), inner.a()), final(w).inside == old(w).inside,
        final(w).arcs@ == counted::<WakerArrayInner<N>, ReadinessArray<N>>(old(w).arcs@, inner.a(), 1), final(w).forgot@ == old(w).forgot@.insert(inner.a(), old(w).forgot@[inner.a()] + 1),
//@endfn
//@fn wa WakerArray::new
//@opt fnarg=Arc::new_cyclic->vx_cyclic_array(w);; fnarg=from_fn->vx_each_array(&inner, w);; addparam=w: &mut Heap<WakerArrayInner<N>, ReadinessArray<N>>;; ret=Self
//@spec
    requires old(w).ok(),
    ensures fresh(old(w), final(w), &r.inner, r.wakers@, N as int),
//@endfn
//@fn wa WakerArray::get
//@opt type=Waker->ChildWaker;; expr=self.wakers.get(index)->vx_array_get(&self.wakers, index)
//@spec
    // the waker of child index
    ensures index < N ==> r == Some(&self.wakers@[index as int]), index >= N ==> r.is_none(),
//@endfn
//@fn wa WakerArray::readiness
//@opt generics='a;; addparam=w: &'a mut Heap<WakerArrayInner<N>, ReadinessArray<N>>;; ret=&'a mut ReadinessArray<N>;; expr=self.inner->vx_content(&self.inner, w);; passto=lock:&mut w.inside.cells
//@spec
    requires old(w).ok(), old(w).live(self.inner.a()),
    // the bookkeeping the wakers of this combinator write to
    ensures *r == old(w).rd(self.inner.a()), final(w).arcs == old(w).arcs, final(w).rd(self.inner.a()) == *final(r), final(w).others(old(w), self.inner.a()),
//@endfn
}
/// Arc::new_cyclic
fn vx_cyclic_vec(len: usize, w: &mut Heap<WakerVecInner, ReadinessVec>) -> (r: Arc<WakerVecInner>)
    requires old(w).ok(),
    ensures placed(*old(w), *final(w), r, len as int),
{
    let k = vx_reserve(w);
    let c = WakerVecInner::vx_made(&k, len);
    let r = vx_place(k, c, w);
    proof { placed_ok(*old(w), *w, r); }
    r
}
impl WakerVecInner {
/// the closure given to Arc::new_cyclic
//@fn wv WakerVec::new
//@opt rawptr;; closure=0;; name=vx_made;; sig=fn vx_made($0: &Weak<WakerVecInner>, len: usize) -> (r: WakerVecInner)
//@spec
    ensures r.redirect.ptrs() == Seq::new(len as nat, |i: int| $0.a()), r.readiness.init().wf(), r.readiness.init().n() == len, r.readiness.init().list() == upto(len as nat), len <= isize::MAX,
//@endfn
}
//@struct wv WakerVec
//@opt type=Waker->ChildWaker
//@endfn
/// the range's map calls the closure for a, a + 1, .. b - 1, in that order
fn vx_each_vec(a: usize, b: usize, inner: &Arc<WakerVecInner>, w: &mut Heap<WakerVecInner, ReadinessVec>) -> (r: Vec<ChildWaker>)
    requires a == 0, old(w).ok(), old(w).live(inner.a()), old(w).content(inner.a()).slots().ptrs().len() == b, old(w).count(inner.a()) > 0,
    ensures each(*old(w), *final(w), inner.a(), r@, b as int),
{
    let mut v: Vec<ChildWaker> = Vec::new();
    let mut i: usize = a;
    while i < b
        invariant
            0 <= i <= b, old(w).ok(), old(w).live(inner.a()), old(w).content(inner.a()).slots().ptrs().len() == b, old(w).count(inner.a()) > 0,
            each(*old(w), *w, inner.a(), v@, i as int),
        decreases b - i,
    {
        let ghost (w1, v1) = (*w, v@);
        let k = WakerVec::vx_waker(i, inner, w);
        v.push(k);
        proof { each_next(*old(w), w1, *w, inner.a(), v1, k, i as int); }
        i = i + 1;
    }
    v
}
impl WakerVec {
/// the closure given to map
//@fn wv WakerVec::new
//@opt closure=map;; name=vx_waker;; sig=fn vx_waker($0: usize, inner: &Arc<WakerVecInner>, w: &mut Heap<WakerVecInner, ReadinessVec>) -> (r: ChildWaker);; world=waker_from_redirect_position;; world=clone
//@spec
    requires old(w).ok(), old(w).live(inner.a()), $0 < old(w).content(inner.a()).slots().ptrs().len(),
    ensures
        final(w).ok(), r.of(final(w), inner.a(), $0 as int), final(w).others(old(w), inner.a()), final(w).inside == old(w).inside,
        final(w).arcs@ == counted::<WakerVecInner, ReadinessVec>(old(w).arcs@, inner.a(), 1), final(w).forgot@ == old(w).forgot@.insert(inner.a(), old(w).forgot@[inner.a()] + 1),
//@endfn
//@fn wv WakerVec::new
//@opt fnarg=Arc::new_cyclic->vx_cyclic_vec(len, w);; mapcollect=vx_each_vec($a, $b, &inner, w);; addparam=w: &mut Heap<WakerVecInner, ReadinessVec>;; ret=Self
//@spec
    requires old(w).ok(),
    ensures fresh(old(w), final(w), &r.inner, r.wakers@, len as int),
//@endfn
//@fn wv WakerVec::get
//@opt type=Waker->ChildWaker
//@spec
    ensures index < self.wakers@.len() ==> r == Some(&self.wakers@[index as int]), index >= self.wakers@.len() ==> r.is_none(),
//@endfn
//@fn wv WakerVec::readiness
//@opt generics='a;; addparam=w: &'a mut Heap<WakerVecInner, ReadinessVec>;; ret=&'a mut ReadinessVec;; expr=self.inner->vx_content(&self.inner, w);; passto=lock:&mut w.inside.cells
//@spec
    requires old(w).ok(), old(w).live(self.inner.a()),
    ensures *r == old(w).rd(self.inner.a()), final(w).arcs == old(w).arcs, final(w).rd(self.inner.a()) == *final(r), final(w).others(old(w), self.inner.a()),
//@endfn
}
// ======== the contract of core::task::Waker: each method is the call of its vtable entry ========
fn vx_waker_clone<A: SharedArcContent>(k: &ChildWaker, w: &mut Heap<A, A::R>) -> (r: ChildWaker)
    requires old(w).ok(), k.raw.good(), exists|a: int, i: int| old(w).points(k.raw.data, a, i),
    ensures
        final(w).ok(), r.raw.good(), r.raw.data == k.raw.data, final(w).inside == old(w).inside, final(w).forgot == old(w).forgot,
        forall|a: int, i: int| #[trigger] old(w).points(k.raw.data, a, i) ==> final(w).points(k.raw.data, a, i) && final(w).content(a) == old(w).content(a) && final(w).count(a) == old(w).count(a) + 1 && final(w).others(old(w), a),
{
    match k.raw.vt.clone { VxFn::CloneWaker => ChildWaker { raw: clone_waker::<A>(k.raw.data, w) }, _ => vx_never() }
}
#[verifier::external_body]
fn vx_never() -> ChildWaker
    requires false,
{ unimplemented!() }
fn vx_waker_call<A: SharedArcContent>(f: VxFn, d: SPtr, w: &mut Heap<A, A::R>)
    requires old(w).ok(), f != VxFn::CloneWaker, exists|a: int, i: int| old(w).points(d, a, i),
    ensures
        final(w).ok(), final(w).forgot == old(w).forgot,
        forall|a: int, i: int| #[trigger] old(w).points(d, a, i) ==> final(w).others(old(w), a)
            && (f == VxFn::DropWaker ==> final(w).inside == old(w).inside && final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, a, -1))
            && (f == VxFn::Wake ==> woke(old(w).inside, final(w).inside, old(w).content(a).cell().id(), i as usize) && final(w).arcs@ == counted::<A, A::R>(old(w).arcs@, a, -1))
            && (f == VxFn::WakeByRef ==> woke(old(w).inside, final(w).inside, old(w).content(a).cell().id(), i as usize) && final(w).arcs == old(w).arcs),
{
    match f { VxFn::Wake => wake::<A>(d, w), VxFn::WakeByRef => wake_by_ref::<A>(d, w), VxFn::DropWaker => drop_waker::<A>(d, w), VxFn::CloneWaker => {} }
}
// ======== most general client: any number of wakers of one combinator, cloned, woken, dropped in any order, outliving it or not ========
enum Op { Clone(usize), Wake(usize), WakeByRef(usize), Drop(usize), Done }
#[verifier::external_body]
fn vx_choice() -> Op { unimplemented!() }
/// the wakers that are out, which child each is for, and whether the combinator is still there
spec fn held<A: SharedArcContent>(w: &Heap<A, A::R>, a: int, ks: Seq<ChildWaker>, of: Seq<int>, there: bool) -> bool {
    &&& w.ok() && of.len() == ks.len()
    &&& ks.len() > 0 || there ==> w.live(a) && w.count(a) == ks.len() + (if there { 1int } else { 0 })
    &&& forall|j: int| 0 <= j < ks.len() ==> (#[trigger] ks[j]).of(w, a, of[j])
    // nobody frees what was freed
    &&& ks.len() == 0 && !there ==> !w.live(a)
}
#[verifier::exec_allows_no_decreases_clause]
fn client<A: SharedArcContent>(arc: Arc<A>, ks: Vec<ChildWaker>, Ghost(of0): Ghost<Seq<int>>, w: &mut Heap<A, A::R>)
    requires held(old(w), arc.a(), ks@, of0, true),
{
    let mut ks = ks;
    let ghost a = arc.a();
    let ghost mut of = of0;
    let mut there = true;
    loop
        invariant held(w, a, ks@, of, there), a == arc.a(),
    {
        let ghost (w0, k0, of1) = (*w, ks@, of);
        match vx_choice() {
            Op::Clone(j) => {
                if j >= ks.len() { return; }
                proof { assert(k0[j as int].of(&w0, a, of1[j as int])); }
                let k = vx_waker_clone(&ks[j], w);
                ks.push(k);
                proof {
                    of = of.push(of[j as int]);
                    assert forall|x: int| 0 <= x < ks@.len() implies (#[trigger] ks@[x]).of(w, a, of[x]) by {
                        if x < k0.len() { assert(k0[x].of(&w0, a, of1[x])); }
                    }
                }
            }
            Op::WakeByRef(j) => {
                if j >= ks.len() { return; }
                proof { assert(k0[j as int].of(&w0, a, of1[j as int])); }
                let (f, d) = (ks[j].raw.vt.wake_by_ref, ks[j].raw.data);
                vx_waker_call(f, d, w);
                // exactly the child it is for
                assert(woke(w0.inside, w.inside, w0.content(a).cell().id(), of[j as int] as usize)); // [C01]
                proof { assert forall|x: int| 0 <= x < ks@.len() implies (#[trigger] ks@[x]).of(w, a, of[x]) by { assert(k0[x].of(&w0, a, of1[x])); } }
            }
            Op::Wake(j) => {
                if j >= ks.len() { return; }
                proof { assert(k0[j as int].of(&w0, a, of1[j as int])); }
                let k = ks.remove(j);
                vx_waker_call(k.raw.vt.wake, k.raw.data, w);
                assert(woke(w0.inside, w.inside, w0.content(a).cell().id(), of[j as int] as usize)); // [C01]
                proof { of = of.remove(j as int); held_less(w0, *w, a, k0, of1, there, j as int); }
            }
            Op::Drop(j) => {
                if j >= ks.len() { return; }
                proof { assert(k0[j as int].of(&w0, a, of1[j as int])); }
                let k = ks.remove(j);
                vx_waker_call(k.raw.vt.drop, k.raw.data, w);
                proof { of = of.remove(j as int); held_less(w0, *w, a, k0, of1, there, j as int); }
            }
            Op::Done => {
                if !there { return; }
                // the combinator is dropped: its Arc is
                Arc::<A>::decrement_strong_count(vx_raw(&arc), w);
                there = false;
                proof {
                    counted_at(w0, *w, a, -1);
                    assert forall|x: int| 0 <= x < ks@.len() implies (#[trigger] ks@[x]).of(w, a, of[x]) by { assert(k0[x].of(&w0, a, of1[x])); }
                }
            }
        }
    }
}
#[verifier::external_body]
fn vx_raw<A: SharedArcContent>(p: &Arc<A>) -> (r: APtr)
    ensures r.a@ == p.a(),
{ unimplemented!() }
proof fn held_less<A: SharedArcContent>(o: Heap<A, A::R>, w: Heap<A, A::R>, a: int, ks: Seq<ChildWaker>, of: Seq<int>, there: bool, j: int)
    requires held(&o, a, ks, of, there), w.ok(), 0 <= j < ks.len(), w.arcs@ == counted::<A, A::R>(o.arcs@, a, -1),
    ensures held(&w, a, ks.remove(j), of.remove(j), there),
{
    assert forall|x: int| 0 <= x < ks.remove(j).len() implies (#[trigger] ks.remove(j)[x]).of(&w, a, of.remove(j)[x]) by {
        if x < j { assert(ks[x].of(&o, a, of[x])); } else { assert(ks[x + 1].of(&o, a, of[x + 1])); }
    }
}
/// what the combinators make is where the client starts
fn client_array<const N: usize>(w: &mut Heap<WakerArrayInner<N>, ReadinessArray<N>>)
    requires old(w).ok(),
{
    let k = WakerArray::<N>::new(w);
    let ghost of = Seq::new(N as nat, |i: int| i);
    let ghost n = k.wakers@;
    let ks = vx_vec_of(k.wakers);
    proof { assert forall|x: int| 0 <= x < ks@.len() implies (#[trigger] ks@[x]).of(w, k.inner.a(), of[x]) by { assert(n[x].of(w, k.inner.a(), x)); } }
    client(k.inner, ks, Ghost(of), w);
}
#[verifier::external_body]
fn vx_vec_of<T, const N: usize>(v: [T; N]) -> (r: Vec<T>)
    ensures r@ == v@,
{ unimplemented!() }
fn client_vec(len: usize, w: &mut Heap<WakerVecInner, ReadinessVec>)
    requires old(w).ok(),
{
    let k = WakerVec::new(len, w);
    let ghost of = Seq::new(len as nat, |i: int| i);
    proof { assert forall|x: int| 0 <= x < k.wakers@.len() implies (#[trigger] k.wakers@[x]).of(w, k.inner.a(), of[x]) by { assert(k.wakers@[x].of(w, k.inner.a(), x)); } }
    client(k.inner, k.wakers, Ghost(of), w);
}
} // verus!
fn main() {}
