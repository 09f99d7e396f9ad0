//@file pth x-bow/src/path.rs
//@file bmg2 x-bow/src/borrow_mut_guard.rs
//@file gua x-bow/src/guarantee.rs
//@file pex x-bow/src/path_ext.rs
//@nodefault
//@default cell;; pin
verus! {
// ======== the data behind a store ========
#[verifier::external_body]
pub struct Root { x: u8 }
/// a path with data: a lens on the store's data (that the paths of the library are lenses is X03)
trait DataPath: Path {
    type Out;
    /// the data it names, if it exists
    spec fn at(&self, root: Root) -> Option<Self::Out>;
    /// whether it can be borrowed mutably (not through shared reference-counted content)
    spec fn open(&self, root: Root) -> bool;
    fn path_borrow<'b>(&self, root: &'b Root) -> (r: Option<&'b Self::Out>)
        ensures
            r is Some <==> self.at(*root) is Some,
            r is Some ==> *r.unwrap() == self.at(*root).unwrap();
    fn path_borrow_mut<'b>(&self, root: &'b mut Root) -> (r: Option<&'b mut Self::Out>)
        ensures
            r is Some <==> self.open(*old(root)),
            r is Some ==> self.at(*old(root)) == Some(*r.unwrap()) && self.at(*final(root)) == Some(*final(r.unwrap())) && self.open(*final(root)),
            r is None ==> *final(root) == *old(root);
}
// ======== x_bow::borrow_mut_guard ========
//@struct bmg2 BorrowMutGuard
//@opt dropfield=store;; field=inner: &'b mut P::Out;; generics=<'b, P: DataPath>
//@endfn
impl<'b, P: DataPath> BorrowMutGuard<'b, P> {
//@fn bmg2 BorrowMutGuard::new
//@opt param=inner: &'b mut P::Out;; param=store: ();; droplit=Self|store
//@spec
    ensures *r.inner == *old(inner), *final(r.inner) == *final(inner), r.path == path,
//@endfn
//@fn bmg2 BorrowMutGuard::DerefMut::deref_mut
//@opt expr=self.inner.deref_mut()->&mut *self.inner;; ret=&mut P::Out
//@spec
    ensures
        *r == *old(self).inner,
        *final(self).inner == *final(r),
        *final(final(self).inner) == *final(old(self).inner),
        final(self).path == old(self).path,
//@endfn
//@fn bmg2 BorrowMutGuard::Drop::drop
//@opt world=notify;; addparam=store: &mut StoreWakers;; expr=self.store->store
//@spec
    requires old(store).wf(), room(*old(store), old(self).path.segs().len() as int + 1),
    ensures
        woke(*old(store), hits(old(self).path.segs()), *final(store)), // [X01,X05]
        final(w).log@ == old(w).log@ + evs(*old(store), hits(old(self).path.segs())),
        *final(self).inner == *old(self).inner,
        *final(final(self).inner) == *final(old(self).inner),
//@endfn
}
// ======== a change leaves every subscription in place ========
type Slots = Seq<(WakerHashEntry, WakerSlot)>;
spec fn l_on(l: Slots, s: StoreWakers) -> bool {
    &&& s.wf()
    &&& forall|i: int| 0 <= i < l.len() ==> s.under((#[trigger] l[i]).0.0, l[i].1.0 as int)
    &&& slots_of(l).no_duplicates()
    &&& l.len() > 0
}
spec fn l_sum(l: Slots, s: StoreWakers) -> int { vsum(s, l, l.len() as int) }
/// a change leaves the subscription in place
proof fn woke_sum(l: Slots, s0: StoreWakers, s1: StoreWakers, ks: Seq<u64>)
    requires woke(s0, ks, s1), l_on(l, s0),
    ensures
        l_on(l, s1), l_sum(l, s0) <= l_sum(l, s1) <= l_sum(l, s0) + l.len() * ks.len(),
        forall|s: int| #[trigger] s1.task(s) == s0.task(s),
{
    assert forall|i: int| 0 <= i < l.len() implies s1.under((#[trigger] l[i]).0.0, l[i].1.0 as int) by {
        assert(s0.under(l[i].0.0, l[i].1.0 as int)); assert(s1.has(l[i].0.0) == s0.has(l[i].0.0)); let h = s0.head(l[i].0.0);
    }
    woke_vsum(l, s0, s1, ks, l.len() as int);
}
proof fn woke_vsum(l: Slots, s0: StoreWakers, s1: StoreWakers, ks: Seq<u64>, k: int)
    requires woke(s0, ks, s1), l_on(l, s0), 0 <= k <= l.len(),
    ensures vsum(s0, l, k) <= vsum(s1, l, k) <= vsum(s0, l, k) + k * ks.len(),
    decreases k,
{
    if k > 0 {
        woke_vsum(l, s0, s1, ks, k - 1);
        let q = l[k - 1].0.0;
        assert(s0.under(q, l[k - 1].1.0 as int));
        let h = s0.head(q);
        assert(s0.has(q));
        let v = s0.version(q);
        count_bound(ks, q);
        assert((k - 1) * ks.len() + ks.len() == k * ks.len()) by (nonlinear_arith);
    }
}
trait VxGuard<P: DataPath>: Sized {
    spec fn gone_pre(self, s0: StoreWakers) -> bool;
    #[verifier::prophetic]
    spec fn gone_post(self, s0: StoreWakers, s1: StoreWakers, l0: Seq<Ev>, l1: Seq<Ev>) -> bool;
    /// its Drop, then what it borrows is given back
    fn vx_gone(self, w: &mut World, store: &mut StoreWakers)
        requires self.gone_pre(*old(store)),
        ensures self.gone_post(*old(store), *final(store), old(w).log@, final(w).log@);
}
impl<'b, P: DataPath> VxGuard<P> for BorrowMutGuard<'b, P> {
    spec fn gone_pre(self, s0: StoreWakers) -> bool { s0.wf() && room(s0, self.path.segs().len() as int + 1) }
    #[verifier::prophetic]
    spec fn gone_post(self, s0: StoreWakers, s1: StoreWakers, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
        &&& woke(s0, hits(self.path.segs()), s1)
        &&& l1 == l0 + evs(s0, hits(self.path.segs()))
        &&& forall|l: Slots| #[trigger] l_on(l, s0) ==> l_on(l, s1) && l_sum(l, s0) <= l_sum(l, s1) <= l_sum(l, s0) + l.len() * (self.path.segs().len() + 1)
        &&& *final(self.inner) == *self.inner
    }
    fn vx_gone(self, w: &mut World, store: &mut StoreWakers) {
        let mut g = self;
        let ghost s0 = *store;
        g.drop(w, store);
        proof {
            assert(hits(self.path.segs()).len() == self.path.segs().len() + 1);
            assert forall|l: Slots| #[trigger] l_on(l, s0) implies l_on(l, *store) && l_sum(l, s0) <= l_sum(l, *store) <= l_sum(l, s0) + l.len() * (self.path.segs().len() + 1) by { woke_sum(l, s0, *store, hits(self.path.segs())); }
        }
    }
}
impl<'b, P: DataPath> VxGuard<P> for Option<BorrowMutGuard<'b, P>> {
    spec fn gone_pre(self, s0: StoreWakers) -> bool { self is Some ==> self.unwrap().gone_pre(s0) }
    #[verifier::prophetic]
    spec fn gone_post(self, s0: StoreWakers, s1: StoreWakers, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
        match self { Some(g) => g.gone_post(s0, s1, l0, l1), None => s1 == s0 && l1 == l0 }
    }
    fn vx_gone(self, w: &mut World, store: &mut StoreWakers) { match self { Some(g) => g.vx_gone(w, store), None => {} } }
}
trait VxDeref<P: DataPath>: Sized {
    #[verifier::prophetic]
    spec fn lent(self, after: Self, r: Option<&mut P::Out>) -> bool;
    fn as_deref_mut(&mut self) -> (r: Option<&mut P::Out>)
        ensures (*old(self)).lent(*final(self), r);
}
impl<'b, P: DataPath> VxDeref<P> for Option<BorrowMutGuard<'b, P>> {
    #[verifier::prophetic]
    spec fn lent(self, after: Self, r: Option<&mut P::Out>) -> bool {
        &&& r is Some <==> self is Some
        &&& after is Some <==> self is Some
        &&& self is Some ==> {
            let (g, h) = (self.unwrap(), after.unwrap());
            *r.unwrap() == *g.inner && *h.inner == *final(r.unwrap()) && *final(h.inner) == *final(g.inner) && h.path == g.path
        }
    }
    fn as_deref_mut(&mut self) -> (r: Option<&mut P::Out>) {
        match self { Some(g) => Some(g.deref_mut()), None => None }
    }
}
/// Option<Ref<T>>::as_deref
trait VxRef<T>: Sized { fn vx_as_deref(&self) -> Option<&T>; }
impl<'b, T> VxRef<T> for Option<&'b T> {
    fn vx_as_deref(&self) -> (r: Option<&T>)
        ensures r == *self,
    { *self }
}
// ======== x_bow::PathExt ========
trait PathExt: DataPath + Sized {
    fn borrow_opt<'b>(&self, root: &'b Root) -> (r: Option<&'b Self::Out>)
        ensures
            r is Some <==> self.at(*root) is Some, // [X03,X04,X05]
            r is Some ==> *r.unwrap() == self.at(*root).unwrap(); // [X03,X04,X05]
    fn get_opt(&self, root: &Root) -> (r: Option<Self::Out>) where Self::Out: Clone
        ensures
            r is Some <==> self.at(*root) is Some, // [X03]
            r is Some ==> cloned(self.at(*root).unwrap(), r.unwrap()); // [X03]
    fn borrow_opt_mut<'b>(&'b self, root: &'b mut Root) -> (r: Option<BorrowMutGuard<'b, Self>>)
        ensures
            r is Some <==> self.open(*old(root)), // [X03,X05]
            r is Some ==> self.at(*old(root)) == Some(*r.unwrap().inner) && self.at(*final(root)) == Some(*final(r.unwrap().inner)) && self.open(*final(root)) && r.unwrap().path == self, // [X03,X05]
            r is None ==> *final(root) == *old(root); // [X03,X05]
    fn borrow_opt_mut_without_notifying<'b>(&'b self, root: &'b mut Root) -> (r: Option<&'b mut Self::Out>)
        ensures
            r is Some <==> self.open(*old(root)), // [X03,X05]
            r is Some ==> self.at(*old(root)) == Some(*r.unwrap()) && self.at(*final(root)) == Some(*final(r.unwrap())) && self.open(*final(root)), // [X03,X05]
            r is None ==> *final(root) == *old(root); // [X03,X05]
    fn notify_changed(&self, store: &mut StoreWakers, w: &mut World)
        requires old(store).wf(), room(*old(store), self.segs().len() as int + 1),
        ensures
            woke(*old(store), hits(self.segs()), *final(store)), // [X01]
            final(w).log@ == old(w).log@ + evs(*old(store), hits(self.segs())); // [X01]
    fn set_opt(&self, data: Self::Out, root: &mut Root, store: &mut StoreWakers, w: &mut World) -> (r: Result<(), Self::Out>)
        requires old(store).wf(), room(*old(store), self.segs().len() as int + 1),
        ensures
            r is Ok <==> self.open(*old(root)), // [X03]
            // set writes the value and tells
            r is Ok ==> self.at(*final(root)) == Some(data), // [X03]
            r is Ok ==> woke(*old(store), hits(self.segs()), *final(store)), // [X01]
            r is Ok ==> final(w).log@ == old(w).log@ + evs(*old(store), hits(self.segs())), // [X01]
            // a set that fails hands the value back, changes nothing and tells nobody
            r is Err ==> r->Err_0 == data && *final(root) == *old(root), // [X03]
            r is Err ==> *final(store) == *old(store) && final(w).log@ == old(w).log@; // [X01,X03]
}
impl<P: DataPath> PathExt for P {
//@fn pex PathExt::borrow_opt
//@opt generics='b;; addparam=root: &'b Root;; passto=path_borrow:root;; ret=Option<&'b Self::Out>
//@endfn
//@fn pex PathExt::get_opt
//@opt addparam=root: &Root;; passto=borrow_opt:root;; rename=as_deref:vx_as_deref;; opt=map
//@endfn
//@fn pex PathExt::borrow_opt_mut
//@opt sig=fn borrow_opt_mut<'b>(&'b self, root: &'b mut Root) -> (r: Option<BorrowMutGuard<'b, Self>>);; passto=path_borrow_mut:root;; expr=self.store_wakers()->();; opt=map
//@endfn
//@fn pex PathExt::borrow_opt_mut_without_notifying
//@opt sig=fn borrow_opt_mut_without_notifying<'b>(&'b self, root: &'b mut Root) -> (r: Option<&'b mut Self::Out>);; passto=path_borrow_mut:root
//@endfn
//@fn pex PathExt::notify_changed
//@opt addparam=store: &mut StoreWakers;; expr=self.store_wakers()->store;; addparam=w: &mut World;; world=notify
//@endfn
//@fn pex PathExt::set_opt
//@opt addparam=root: &mut Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; guard=borrow_opt_mut:w, store;; passto=borrow_opt_mut:root;; where=
//@endfn
}
// ======== x_bow::PathExtGuaranteed ========
/// a path that always names something (which paths of the library are: unit xlens)
trait Sure: DataPath {
    proof fn sure(&self, root: Root)
        ensures self.at(root) is Some, self.open(root);
}
trait PathExtGuaranteed: Sure + PathExt + Sized {
    fn borrow<'b>(&self, root: &'b Root) -> (r: &'b Self::Out)
        ensures self.at(*root) == Some(*r); // [X03]
    fn borrow_mut<'b>(&'b self, root: &'b mut Root) -> (r: BorrowMutGuard<'b, Self>)
        ensures self.at(*old(root)) == Some(*r.inner), self.at(*final(root)) == Some(*final(r.inner)), r.path == self; // [X03]
    fn borrow_mut_without_notifying<'b>(&'b self, root: &'b mut Root) -> (r: &'b mut Self::Out)
        ensures self.at(*old(root)) == Some(*r), self.at(*final(root)) == Some(*final(r)); // [X03]
    fn get(&self, root: &Root) -> (r: Self::Out) where Self::Out: Clone
        ensures cloned(self.at(*root).unwrap(), r); // [X03]
    fn set(&self, data: Self::Out, root: &mut Root, store: &mut StoreWakers, w: &mut World)
        requires old(store).wf(), room(*old(store), self.segs().len() as int + 1),
        ensures
            self.at(*final(root)) == Some(data), // [X03]
            woke(*old(store), hits(self.segs()), *final(store)), // [X01]
            final(w).log@ == old(w).log@ + evs(*old(store), hits(self.segs())); // [X01]
}
//@nodefault
//@default pin
impl<P: Sure> PathExtGuaranteed for P {
//@fn gua PathExtGuaranteed::borrow
//@opt generics='b;; addparam=root: &'b Root;; passto=borrow_opt:root;; ret=&'b Self::Out
//@begin
    proof { self.sure(*root); }
//@endfn
//@fn gua PathExtGuaranteed::borrow_mut
//@opt sig=fn borrow_mut<'b>(&'b self, root: &'b mut Root) -> (r: BorrowMutGuard<'b, Self>);; passto=borrow_opt_mut:root
//@begin
    proof { self.sure(*root); }
//@endfn
//@fn gua PathExtGuaranteed::borrow_mut_without_notifying
//@opt sig=fn borrow_mut_without_notifying<'b>(&'b self, root: &'b mut Root) -> (r: &'b mut Self::Out);; passto=borrow_opt_mut_without_notifying:root
//@begin
    proof { self.sure(*root); }
//@endfn
//@fn gua PathExtGuaranteed::get
//@opt addparam=root: &Root;; passto=borrow:root
//@endfn
//@fn gua PathExtGuaranteed::set
//@opt addparam=root: &mut Root;; addparam=store: &mut StoreWakers;; addparam=w: &mut World;; guard=borrow_mut:w, store;; gderef;; passto=borrow_mut:root;; where=
//@endfn
}
//@nodefault
//@default cell;; pin
} // verus!
