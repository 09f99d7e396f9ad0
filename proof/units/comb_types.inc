//@include domctx.inc
//@file pos async_ui_web_core/src/position.rs
verus! {
// ======== core: ControlFlow, MaybeUninit ========
/// core::convert::Infallible: nothing makes one
#[verifier::external_body]
pub struct Infallible { x: u8 }
pub enum ControlFlow<B, C> { Continue(C), Break(B) }
/// core::mem::MaybeUninit: the slot knows whether it holds a value; the operations that need one require it,
/// and writing over or forgetting a value that is there is not allowed (it would leak: C04)
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct MaybeUninit<T> { x: core::marker::PhantomData<T> }
impl<T> View for MaybeUninit<T> {
    type V = Option<T>;
    uninterp spec fn view(&self) -> Option<T>;
}
impl<T> MaybeUninit<T> {
    #[verifier::external_body]
    pub fn uninit() -> (r: Self)
        ensures r@.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, v: T)
        requires old(self)@.is_none(),
        ensures final(self)@ == Some(v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init_drop(&mut self)
        requires old(self)@.is_some(),
        ensures final(self)@.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn assume_init(self) -> (r: T)
        requires self@.is_some(),
        ensures r == self@.unwrap(),
    { unimplemented!() }
}
pub open spec fn all_uninit<T>(s: Seq<MaybeUninit<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.is_none() }
#[verifier::external_body]
pub fn vx_uninit_array<T, const N: usize>() -> (r: [MaybeUninit<T>; N])
    ensures all_uninit(r@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_uninit_vec<T>(n: usize) -> (r: Vec<MaybeUninit<T>>)
    ensures r@.len() == n, all_uninit(r@),
{ unimplemented!() }
/// every slot is read, so every slot must hold a value
#[verifier::external_body]
pub fn array_assume_init<T, const N: usize>(a: [MaybeUninit<T>; N]) -> (r: [T; N])
    requires forall|i: int| 0 <= i < N ==> (#[trigger] a@[i])@.is_some(),
    ensures forall|i: int| 0 <= i < N ==> (#[trigger] r@[i]) == a@[i]@.unwrap(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_vec_assume_init<T>(a: Vec<MaybeUninit<T>>) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@.is_some(),
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a@[i]@.unwrap(),
{ unimplemented!() }
} // verus!
verus! {
// ======== rendering context and detachment, as the combinators see them (their own contracts are in units dom*) ========
#[verifier::external_body]
pub struct ChildPosition { x: u8 }
impl ChildPosition {
    pub uninterp spec fn segs(&self) -> Seq<u32>;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.segs() == Seq::<u32>::empty(),
    { unimplemented!() }
}
/// everything rendered at or below a position of a context is taken out of the document
spec fn removal(d: DomContext, p: Seq<u32>) -> Ev { Ev::Gone(d.group(), d.at(p)) }
impl<'p> DomContext<'p> {
    #[verifier::external_body]
    fn remove_child(&self, position: ChildPosition, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(removal(*self, position.segs())), final(w).dropping == old(w).dropping,
    { unimplemented!() }
}
} // verus!
//@contracts on
//@include dropping.inc
//@contracts off
//@include gone.inc
verus! {
trait Ready {
    spec fn ready_wf(&self) -> bool;
    spec fn ready_n(&self) -> nat;
    spec fn ready_list(&self) -> Seq<usize>;
    spec fn ready_parent(&self) -> int;
}
/// what can have happened to the shared bookkeeping while children ran: some of them woke
#[verifier::opaque]
spec fn evolves<R: Ready>(a: R, b: R, la: Seq<Ev>, lb: Seq<Ev>) -> bool {
    &&& b.ready_wf() && b.ready_n() == a.ready_n() && b.ready_parent() == a.ready_parent()
    &&& a.ready_list().is_prefix_of(b.ready_list())
    &&& la.is_prefix_of(lb)
    &&& a.ready_list().len() == 0 && b.ready_list().len() > 0 ==> lb.skip(la.len() as int).contains(Ev::Wake(a.ready_parent()))
}
proof fn evolves_trans<R: Ready>(a: R, b: R, c: R, la: Seq<Ev>, lb: Seq<Ev>, lc: Seq<Ev>)
    requires evolves(a, b, la, lb), evolves(b, c, lb, lc),
    ensures evolves(a, c, la, lc),
{
    reveal(evolves);
    if a.ready_list().len() == 0 && c.ready_list().len() > 0 {
        let e = Ev::Wake(a.ready_parent());
        if b.ready_list().len() > 0 {
            let k = lb.skip(la.len() as int).index_of(e);
            assert(lc.skip(la.len() as int)[k] == e);
        } else {
            let k = lc.skip(lb.len() as int).index_of(e);
            assert(lc.skip(la.len() as int)[k + lb.len() - la.len()] == e);
        }
    }
}
proof fn evolves_list<R: Ready>(a: R, b: R, la: Seq<Ev>, lb: Seq<Ev>)
    requires evolves(a, b, la, lb),
    ensures b.ready_wf(), b.ready_parent() == a.ready_parent(), a.ready_list().len() == 0 && b.ready_list().len() > 0 ==> lb.skip(la.len() as int).contains(Ev::Wake(a.ready_parent())),
{ reveal(evolves); }
proof fn evolves_start<R: Ready>(a: R, l: Seq<Ev>)
    requires a.ready_wf(),
    ensures evolves(a, a, l, l),
{ reveal(evolves); }
/// the shared bookkeeping of one combinator is R
trait Future<R: Ready>: Sized {
    type Output;
    /// what it completed with, if it has
    spec fn out(&self) -> Option<Self::Output>;
    /// how often it has been polled
    spec fn polls(&self) -> nat;
    /// whether it belongs in this rendering context and is woken through this waker
    spec fn home(&self, d: DomContext, task: int) -> bool;
    /// a child: polled only where it belongs and never once completed; while it runs, children of the combinator may wake
    fn poll(&mut self, cx: &mut Context<'_>, dom: &DomContext, rd: &mut R, w: &mut World) -> (r: Poll<Self::Output>)
        requires
            old(self).out().is_none(), // [C03]
            old(self).home(*dom, old(cx).task()), // [C03,D01,D02]
        ensures
            final(self).polls() == old(self).polls() + 1,
            final(self).out() == (match r { Poll::Ready(v) => Some(v), Poll::Pending => None }),
            forall|d: DomContext, t: int| #[trigger] final(self).home(d, t) == old(self).home(d, t),
            evolves(*old(rd), *final(rd), old(w).log@, final(w).log@),
            final(w).dropping == old(w).dropping;
    /// this is not one of the groups of the elements inside it
    spec fn apart(&self, g: int) -> bool;
    /// dropping it: under a block, it takes nothing out of where it was rendered; otherwise it leaves no block behind
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World)
        requires !old(w).blocked() ==> dom is Some,
        ensures
            old(w).blocked() ==> final(w).dropping == old(w).dropping,
            old(w).blocked() ==> forall|g: int| #[trigger] old(self).apart(g) ==> elsewhere(old(w).log@, final(w).log@, g),
            !old(w).blocked() ==> !final(w).blocked();
}
/// dropping an array or a vec: its elements, in order
trait VxGone<R: Ready> {
    spec fn all_apart(&self, g: int) -> bool;
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World)
        requires old(w).blocked(),
        ensures
            final(w).dropping == old(w).dropping,
            forall|g: int| #[trigger] old(self).all_apart(g) ==> elsewhere(old(w).log@, final(w).log@, g);
}
impl<R: Ready, F: Future<R>, const N: usize> VxGone<R> for [F; N] {
    spec fn all_apart(&self, g: int) -> bool { forall|i: int| 0 <= i < N ==> #[trigger] self@[i].apart(g) }
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World) {
        let mut i = 0;
        while i < N
            invariant
                0 <= i <= N, w.blocked(), w.dropping == old(w).dropping,
                forall|k: int| i <= k < N ==> #[trigger] self@[k] == old(self)@[k],
                forall|g: int| #[trigger] old(self).all_apart(g) ==> elsewhere(old(w).log@, w.log@, g),
            decreases N - i,
        {
            let ghost l = w.log@;
            let ghost f = self@[i as int];
            vx_get_pin(self, i).unwrap().vx_gone(dom, w);
            proof { assert forall|g: int| #[trigger] old(self).all_apart(g) implies elsewhere(old(w).log@, w.log@, g) by { assert(old(self)@[i as int].apart(g)); elsewhere_trans(old(w).log@, l, w.log@, g); } }
            i = i + 1;
        }
    }
}
impl<R: Ready, F: Future<R>> VxGone<R> for Vec<F> {
    spec fn all_apart(&self, g: int) -> bool { forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i].apart(g) }
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World) {
        let mut i = 0;
        let n = self.len();
        while i < n
            invariant
                0 <= i <= n, n == self@.len(), self@.len() == old(self)@.len(), w.blocked(), w.dropping == old(w).dropping,
                forall|k: int| i <= k < n ==> #[trigger] self@[k] == old(self)@[k],
                forall|g: int| #[trigger] old(self).all_apart(g) ==> elsewhere(old(w).log@, w.log@, g),
            decreases n - i,
        {
            let ghost l = w.log@;
            vx_get_pin_vec(self, i).unwrap().vx_gone(dom, w);
            proof { assert forall|g: int| #[trigger] old(self).all_apart(g) implies elsewhere(old(w).log@, w.log@, g) by { assert(old(self)@[i as int].apart(g)); elsewhere_trans(old(w).log@, l, w.log@, g); } }
            i = i + 1;
        }
    }
}
pub proof fn same_flags(a: Seq<bool>, b: Seq<bool>, x: int)
    requires 0 <= x < a.len(), b == a.update(x, a[x]),
    ensures b == a,
{ assert(b =~= a); }
/// how many children have not completed
pub open spec fn falses(s: Seq<bool>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { falses(s.drop_last()) + if s.last() { 0nat } else { 1nat } }
}
pub proof fn falses_set(s: Seq<bool>, i: int)
    requires 0 <= i < s.len(), !s[i],
    ensures falses(s.update(i, true)) == falses(s) - 1, falses(s) >= 1,
    decreases s.len(),
{
    let t = s.update(i, true);
    if i == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { falses_set(s.drop_last(), i); assert(t.drop_last() =~= s.drop_last().update(i, true)); }
}
pub proof fn falses_zero(s: Seq<bool>)
    ensures
        falses(s) == 0 <==> (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i]),
        (forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i]) ==> falses(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        falses_zero(s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == s[i]);
        if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] { assert(s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] by { assert(s[i]); } }
        if falses(s) == 0 { assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] by { if i < s.len() - 1 { assert(s.drop_last()[i]); } } }
        if forall|i: int| 0 <= i < s.len() ==> !#[trigger] s[i] { assert(!s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies !#[trigger] s.drop_last()[i] by { assert(!s[i]); } }
    }
}
} // verus!
