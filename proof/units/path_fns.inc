verus! {
impl<'a> HashVisitor<'a> {
    spec fn t(&self) -> Seq<int> { self.hasher.toks@ }
    /// fit for a path of n levels
    spec fn ready(&self, n: int) -> bool {
        match self.behavior {
            HashVisitorBehavior::BuildRegularListeners { wakers, notifiers_list } => (*wakers).wf(),
            HashVisitorBehavior::WakeBubblingListeners { wakers } => (*wakers).wf() && room(*wakers, n),
            HashVisitorBehavior::GetHash {} => true,
        }
    }
    spec fn is_build(&self) -> bool { self.behavior is BuildRegularListeners }
    spec fn is_wake(&self) -> bool { self.behavior is WakeBubblingListeners }
    spec fn bstore(&self) -> StoreWakers { *(self.behavior->BuildRegularListeners_wakers) }
    spec fn blist(&self) -> Seq<(WakerHashEntry, WakerSlot)> { (*(self.behavior->BuildRegularListeners_notifiers_list))@ }
    spec fn wstore(&self) -> StoreWakers { *(self.behavior->WakeBubblingListeners_wakers) }
}
/// what visiting the levels segs does to a visitor
spec fn visited<'a>(v0: HashVisitor<'a>, segs: Seq<Seq<int>>, v1: HashVisitor<'a>, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    &&& v1.t() == pre(v0.t(), segs, segs.len() as int)
    &&& v1.depth == dep(v0.depth, segs.len() as int)
    &&& v1.is_build() == v0.is_build()
    &&& v1.is_wake() == v0.is_wake()
    &&& v0.is_build() ==> {
        &&& v1.blist().len() == v0.blist().len() + segs.len()
        &&& v1.blist().take(v0.blist().len() as int) == v0.blist()
        &&& keys_of(v1.blist().skip(v0.blist().len() as int)) == rks(v0.t(), v0.depth, segs)
        &&& added(v0.bstore(), rks(v0.t(), v0.depth, segs), slots_of(v1.blist().skip(v0.blist().len() as int)), v1.bstore())
    }
    &&& v0.is_wake() ==> {
        &&& woke(v0.wstore(), bks(v0.t(), v0.depth, segs), v1.wstore())
        &&& l1 == l0 + evs(v0.wstore(), bks(v0.t(), v0.depth, segs))
    }
    &&& !v0.is_wake() ==> l1 == l0
}
/// the visitor still writes to the same places
#[verifier::prophetic]
spec fn same_targets<'a>(v0: HashVisitor<'a>, v1: HashVisitor<'a>) -> bool {
    &&& v0.is_build() ==> *final(v1.behavior->BuildRegularListeners_wakers) == *final(v0.behavior->BuildRegularListeners_wakers)
            && *final(v1.behavior->BuildRegularListeners_notifiers_list) == *final(v0.behavior->BuildRegularListeners_notifiers_list)
    &&& v0.is_wake() ==> *final(v1.behavior->WakeBubblingListeners_wakers) == *final(v0.behavior->WakeBubblingListeners_wakers)
}
impl<'a> HashVisitor<'a> {
//@fn hv HashVisitor::new
//@spec
    ensures r.t() == Seq::<int>::empty(), r.depth == 0, r.behavior == behavior,
//@endfn
//@fn hv HashVisitor::to_regular_key
//@spec
    ensures r.0 == rkey(h64(self.t()), self.depth),
//@endfn
//@fn hv HashVisitor::to_bubbling_key
//@spec
    ensures r.0 == bkey(h64(self.t()), self.depth),
//@endfn
//@fn hv HashVisitor::DerefMut::deref_mut
//@opt ret=&mut HasherType
//@spec
    ensures
        *r == old(self).hasher,
        final(self).hasher == *final(r),
        final(self).behavior == old(self).behavior,
        final(self).depth == old(self).depth,
//@endfn
//@fn hv HashVisitor::finish_one
//@opt world=wake_entry
//@spec
    requires old(self).ready(1),
    ensures
        visited(*old(self), seq![Seq::<int>::empty()], *final(self), old(w).log@, final(w).log@),
        same_targets(*old(self), *final(self)),
//@begin
    proof {
        let e = seq![Seq::<int>::empty()];
        assert(pre(self.t(), e, 1) =~= self.t()) by { assert(pre(self.t(), e, 0) == self.t()); assert(e[0] == Seq::<int>::empty()); }
        assert(dep(self.depth, 1) == (if self.depth == 255 { 0u8 } else { (self.depth + 1) as u8 }));
        if self.is_wake() { woke_none(self.wstore()); }
    }
//@end
    proof {
        let e = seq![Seq::<int>::empty()];
        let t = old(self).t();
        let d = old(self).depth;
        if old(self).is_build() {
            let s0 = old(self).bstore();
            let s1 = self.bstore();
            let k = rk(t, d, e, 1);
            let l = self.blist().skip(old(self).blist().len() as int);
            let x = l[0].1.0 as int;
            assert(l[0].0.0 == k);
            assert(rks(t, d, e) =~= seq![k]);
            assert(keys_of(l) =~= rks(t, d, e));
            assert(self.blist().take(old(self).blist().len() as int) =~= old(self).blist());
            assert(slots_of(l) =~= seq![x]);
            if !s0.has(k) {
                assert(Seq::<int>::empty().push(x) =~= seq![x]);
                assert(s1.all_wakers.lists() =~= s0.all_wakers.lists().insert(s1.head(k), seq![x]));
            }
            one_added(s0, k, x, s1);
        }
        if old(self).is_wake() {
            let s0 = old(self).wstore();
            let k = bk(t, d, e, 1);
            assert(bks(t, d, e) =~= seq![k]);
            assert(seq![k].drop_last() =~= Seq::<u64>::empty());
            assert(evs(s0, Seq::<u64>::empty()) == Seq::<Ev>::empty());
            assert(evs(s0, seq![k]) =~= wakes(s0.tasks(k)));
            assert forall|q: u64| count(seq![k], q) == (if q == k { 1int } else { 0 }) by { assert(count(Seq::<u64>::empty(), q) == 0); }
        }
    }
//@endfn
}
/// the effect of get_entry(k).add_waker_slot()
proof fn one_added(s0: StoreWakers, k: u64, x: int, s1: StoreWakers)
    requires
        s0.wf(),
        s1.all_wakers.wf(),
        !s0.all_wakers.live(x),
        s1.map@.remove(k) == s0.map@.remove(k),
        s1.has(k),
        s0.has(k) ==> s1.map@[k] == s0.map@[k] && s1.all_wakers.lists() == s0.all_wakers.lists().insert(s0.head(k), s0.all_wakers.lists()[s0.head(k)].push(x)),
        !s0.has(k) ==> s1.version(k) == 1 && !s0.all_wakers.lists().contains_key(s1.head(k))
            && s1.all_wakers.lists() == s0.all_wakers.lists().insert(s1.head(k), seq![x]),
        s1.task(x) == no_task(),
        forall|s: int| 0 <= s < s0.all_wakers.items@.len() ==> #[trigger] s1.task(s) == s0.task(s),
    ensures added(s0, seq![k], seq![x], s1),
{
    let ks = seq![k];
    let ss = seq![x];
    assert(ks[0] == k && ss[0] == x);
    assert forall|q: u64| q != k implies #[trigger] s1.has(q) == s0.has(q) && (s0.has(q) ==> s1.map@[q] == s0.map@[q]) by {
        assert(s1.map@.remove(k).contains_key(q) == s0.map@.remove(k).contains_key(q));
        assert(s1.map@.remove(k).contains_key(q) == s1.map@.contains_key(q));
        assert(s0.map@.remove(k).contains_key(q) == s0.map@.contains_key(q));
        if s0.has(q) {
            assert(s1.map@.remove(k)[q] == s0.map@.remove(k)[q]);
            assert(s1.map@.remove(k)[q] == s1.map@[q]);
            assert(s0.map@.remove(k)[q] == s0.map@[q]);
        }
    }
    assert(s1.slots(k) == s0.slots(k).push(x)) by {
        if !s0.has(k) { assert(s0.slots(k).push(x) =~= seq![x]); }
    }
    assert(s1.slots(k)[s0.slots(k).len() as int] == x);
    assert forall|q: u64| q != k implies #[trigger] s1.slots(q) == s0.slots(q) by {
        assert(s1.has(q) == s0.has(q));
        if s0.has(q) { assert(s0.head(q) != s1.head(k)) by { if s0.has(k) { assert(s0.has(q) && s0.has(k)); } } }
    }
    assert(s1.wf()) by {
        assert forall|q: u64| #[trigger] s1.has(q) implies s1.all_wakers.lists().contains_key(s1.head(q)) && s1.version(q) >= 1 by {
            if q != k { assert(s0.has(q)); } else if s0.has(k) { assert(s0.version(k) >= 1); }
        }
        assert forall|p: u64, q: u64| #[trigger] s1.has(p) && #[trigger] s1.has(q) && p != q implies s1.head(p) != s1.head(q) by {
            if p != k { assert(s0.has(p)); assert(s0.all_wakers.lists().contains_key(s0.head(p))); }
            if q != k { assert(s0.has(q)); assert(s0.all_wakers.lists().contains_key(s0.head(q))); }
        }
    }
    assert forall|q: u64, s: int| #[trigger] s0.under(q, s) implies s1.under(q, s) && s1.task(s) == s0.task(s) && !ss.contains(s) by {
        s0.disjoint(q, q, s);
        if q == k {
            let i = s0.slots(k).index_of(s);
            assert(s0.slots(k)[i] == s);
            assert(s1.slots(k)[i] == s);
        } else {
            assert(s1.slots(q) == s0.slots(q));
        }
    }
    assert forall|q: u64, s: int| #[trigger] s1.under(q, s) implies s0.under(q, s) || (ss.contains(s) && exists|i: int| 0 <= i < ks.len() && ks[i] == q && #[trigger] ss[i] == s) by {
        if q == k {
            let i = s1.slots(k).index_of(s);
            assert(s1.slots(k)[i] == s);
            if i < s0.slots(k).len() { assert(s0.slots(k)[i] == s); } else { assert(ss[0] == s); }
        } else {
            assert(s1.slots(q) == s0.slots(q));
        }
    }
    assert forall|q: u64| #[trigger] s0.has(q) implies s1.has(q) && s1.version(q) == s0.version(q) by {}
}
} // verus!
