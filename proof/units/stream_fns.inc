//@file uch x-bow/src/until_change.rs
//@file bmg x-bow/src/borrow_mut_guard.rs
//@nodefault
//@default cell;; pin;; expr=store.borrow_mut()->(&mut *store)
verus! {
//@struct uch UntilChange
//@opt dropfield=store;; generics=
//@endfn
/// the sum of the versions of the first k keys of a list
spec fn vsum(s: StoreWakers, l: Seq<(WakerHashEntry, WakerSlot)>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { vsum(s, l, k - 1) + s.version(l[k - 1].0.0) }
}
proof fn vsum_bound(s: StoreWakers, l: Seq<(WakerHashEntry, WakerSlot)>, k: int, n: int)
    requires 0 <= k <= n <= l.len(), forall|i: int| 0 <= i < l.len() ==> s.version((#[trigger] l[i]).0.0) >= 1,
    ensures k <= vsum(s, l, k) <= vsum(s, l, n),
    decreases n,
{
    if k < n { vsum_bound(s, l, k, n - 1); let e = l[n - 1]; }
    else if k > 0 { vsum_bound(s, l, k - 1, k - 1); let e = l[k - 1]; }
}
proof fn vsum_ext(s: StoreWakers, t: StoreWakers, l: Seq<(WakerHashEntry, WakerSlot)>, k: int)
    requires 0 <= k <= l.len(), forall|i: int| 0 <= i < l.len() ==> s.version((#[trigger] l[i]).0.0) == t.version(l[i].0.0),
    ensures vsum(s, l, k) == vsum(t, l, k),
    decreases k,
{
    if k > 0 { vsum_ext(s, t, l, k - 1); let e = l[k - 1]; }
}
impl UntilChange {
    spec fn keys(&self) -> Seq<u64> { keys_of(self.slots@) }
    spec fn own(&self) -> Seq<int> { slots_of(self.slots@) }
    spec fn polled(&self) -> bool { self.last_version > 0 }
    /// the subscription is registered: each of its slots under its key
    spec fn on(&self, s: StoreWakers) -> bool {
        &&& s.wf()
        &&& forall|i: int| 0 <= i < self.slots@.len() ==> s.under((#[trigger] self.slots@[i]).0.0, self.slots@[i].1.0 as int)
        &&& self.own().no_duplicates()
        &&& self.slots@.len() > 0
    }
    spec fn sum(&self, s: StoreWakers) -> int { vsum(s, self.slots@, self.slots@.len() as int) }
    proof fn on_facts(&self, s: StoreWakers)
        requires self.on(s),
        ensures
            forall|i: int| 0 <= i < self.slots@.len() ==> s.has((#[trigger] self.slots@[i]).0.0) && s.version(self.slots@[i].0.0) >= 1 && s.all_wakers.live(self.slots@[i].1.0 as int),
            self.sum(s) >= 1,
            forall|i: int, j: int| 0 <= i < self.slots@.len() && 0 <= j < self.slots@.len() && i != j ==> (#[trigger] self.slots@[i]).1.0 != (#[trigger] self.slots@[j]).1.0,
    {
        assert forall|i: int| 0 <= i < self.slots@.len() implies s.has((#[trigger] self.slots@[i]).0.0) && s.version(self.slots@[i].0.0) >= 1 && s.all_wakers.live(self.slots@[i].1.0 as int) by {
            s.disjoint(self.slots@[i].0.0, self.slots@[i].0.0, self.slots@[i].1.0 as int);
        }
        vsum_bound(s, self.slots@, self.slots@.len() as int, self.slots@.len() as int);
        assert forall|i: int, j: int| 0 <= i < self.slots@.len() && 0 <= j < self.slots@.len() && i != j implies (#[trigger] self.slots@[i]).1.0 != (#[trigger] self.slots@[j]).1.0 by {
            assert(self.own()[i] == self.slots@[i].1.0 && self.own()[j] == self.slots@[j].1.0);
        }
    }
//@fn uch UntilChange::new
//@opt world=visit_hashes;; param=store: &mut StoreWakers;; droplit=Self|store;; generics=M: Path
//@spec
    requires old(store).wf(), mapper.segs().len() > 0,
    ensures
        r.last_version == 0,
        r.keys() == rks(Seq::empty(), 0, mapper.segs()), // [X01]
        added(*old(store), r.keys(), r.own(), *final(store)),
        r.on(*final(store)),
        final(w).log@ == old(w).log@,
//@end
    proof {
        let l = __r.slots@;
        assert(l.skip(0) =~= l);
        assert forall|i: int| 0 <= i < l.len() implies store.under((#[trigger] l[i]).0.0, l[i].1.0 as int) by {
            assert(store.under(__r.keys()[i], __r.own()[i]));
        }
    }
//@endfn
//@fn uch UntilChange::new_bubbling
//@opt world=visit_hashes;; param=store: &mut StoreWakers;; droplit=Self|store;; generics=M: Path
//@spec
    requires old(store).wf(),
    ensures
        r.last_version == 0,
        r.keys() == seq![bk(Seq::empty(), 0, mapper.segs(), mapper.segs().len() as int)], // [X02]
        added(*old(store), r.keys(), r.own(), *final(store)),
        r.on(*final(store)),
        final(w).log@ == old(w).log@,
//@begin
    let ghost s0 = *store;
//@end
    proof {
        let l = __r.slots@;
        let k = l[0].0.0;
        let x = l[0].1.0 as int;
        assert(keys_of(l) =~= seq![k]);
        assert(slots_of(l) =~= seq![x]);
        let s1 = *store;
        if !s0.has(k) {
            assert(Seq::<int>::empty().push(x) =~= seq![x]);
            assert(s1.all_wakers.lists() =~= s0.all_wakers.lists().insert(s1.head(k), seq![x]));
        }
        one_added(s0, k, x, s1);
        assert(s1.under(__r.keys()[0], __r.own()[0]));
    }
//@endfn
//@fn uch UntilChange::has_been_polled
//@spec
    ensures r == self.polled(),
//@endfn
//@fn uch UntilChange::Stream::poll_next
//@opt addparam=store: &mut StoreWakers;; expr=this.store.borrow_mut()->(&mut *store);; rename=iter:vx_iter;; ret=Poll<Option<()>>
//@spec
    requires old(self).on(*old(store)), old(self).sum(*old(store)) <= u64::MAX,
    ensures
        final(self).slots == old(self).slots,
        final(self).last_version == old(self).sum(*old(store)), final(self).polled(),
        final(self).on(*final(store)),
        r == (if old(self).polled() && old(self).last_version != old(self).sum(*old(store)) { Poll::Ready(Some(())) } else { Poll::Pending }),
        final(store).map@ == old(store).map@,
        final(self).sum(*final(store)) == old(self).sum(*old(store)),
        forall|q: u64| #[trigger] final(store).has(q) == old(store).has(q) && final(store).version(q) == old(store).version(q),
        final(cx).task() == old(cx).task(),
        final(store).all_wakers.lists() == old(store).all_wakers.lists(),
        forall|s: int| old(self).own().contains(s) ==> #[trigger] final(store).task(s) == old(cx).task(),
        forall|q: u64, s: int| #[trigger] old(store).under(q, s) && !old(self).own().contains(s) ==> final(store).task(s) == old(store).task(s),
//@begin
    let ghost s0 = *store;
    let ghost l = self.slots@;
    let ghost own = self.own();
    proof { self.on_facts(*store); }
//@loop 0
    invariant
        __it2.v == this.slots, this.slots@ == l, __it2.i <= l.len(), own == slots_of(l),
        this.last_version == old(self).last_version,
        old(self).on(s0), l == old(self).slots@,
        new_waker.task() == old(cx).task(),
        vsum(s0, l, l.len() as int) <= u64::MAX,
        forall|i: int| 0 <= i < l.len() ==> s0.has((#[trigger] l[i]).0.0) && s0.version(l[i].0.0) >= 1 && s0.all_wakers.live(l[i].1.0 as int),
        forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j ==> (#[trigger] l[i]).1.0 != (#[trigger] l[j]).1.0,
        store.all_wakers.wf(), store.map@ == s0.map@, store.all_wakers.lists() == s0.all_wakers.lists(),
        __acc1 == vsum(s0, l, __it2.i as int),
        forall|j: int| 0 <= j < __it2.i ==> store.task((#[trigger] l[j]).1.0 as int) == new_waker.task(),
        forall|q: u64, s: int| #[trigger] s0.under(q, s) && !own.contains(s) ==> store.task(s) == s0.task(s),
    ensures
        __it2.i >= l.len(),
    decreases l.len() - __it2.i,
//@loopstart 0
    let ghost i0 = __it2.i as int;
    let ghost sa = *store;
    proof {
        if i0 < l.len() {
            vsum_bound(s0, l, i0 + 1, l.len() as int);
            let e = l[i0];
            same_shape(s0, sa);
            assert(sa.under(e.0.0, e.1.0 as int));
            sa.disjoint(e.0.0, e.0.0, e.1.0 as int);
        }
    }
//@loopend 0
    proof {
        let e = l[i0];
        map_restore(sa.map@, store.map@, e.0.0);
        assert(own[i0] == e.1.0);
        assert forall|j: int| 0 <= j < __it2.i implies store.task((#[trigger] l[j]).1.0 as int) == new_waker.task() by {
            same_shape(s0, sa);
            assert(sa.under(l[j].0.0, l[j].1.0 as int));
            sa.disjoint(l[j].0.0, l[j].0.0, l[j].1.0 as int);
        }
        assert forall|q: u64, s: int| #[trigger] s0.under(q, s) && !own.contains(s) implies store.task(s) == s0.task(s) by {
            same_shape(s0, sa);
            assert(sa.under(q, s));
            sa.disjoint(q, q, s);
        }
    }
//@after let new_version
    proof {
        same_shape(s0, *store);
        vsum_ext(s0, *store, l, l.len() as int);
        assert forall|s: int| own.contains(s) implies #[trigger] store.task(s) == new_waker.task() by {
            let j = own.index_of(s);
            assert(own[j] == l[j].1.0);
        }
    }
//@endfn
//@fn uch UntilChange::Drop::drop
//@opt addparam=store: &mut StoreWakers;; expr=self.store.borrow_mut()->(&mut *store);; rename=iter:vx_iter
//@spec
    requires old(self).on(*old(store)),
    ensures
        removed(*old(store), old(self).keys(), old(self).own(), *final(store)),
//@begin
    let ghost s0 = *store;
    let ghost l = self.slots@;
    let ghost own = self.own();
    proof { self.on_facts(*store); }
//@loop 0
    invariant
        __it1.v == self.slots, self.slots@ == l, __it1.i <= l.len(), own == slots_of(l),
        s0.wf(), self.on(s0),
        forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j ==> (#[trigger] l[i]).1.0 != (#[trigger] l[j]).1.0,
        removed(s0, self.keys(), own.take(__it1.i as int), *store),
    ensures
        __it1.i >= l.len(),
    decreases l.len() - __it1.i,
//@loopstart 0
    let ghost i0 = __it1.i as int;
    let ghost sa = *store;
    proof {
        if i0 < l.len() {
            let e = l[i0];
            assert(!own.take(i0).contains(e.1.0 as int)) by {
                if own.take(i0).contains(e.1.0 as int) {
                    let j = own.take(i0).index_of(e.1.0 as int);
                    assert(own.take(i0)[j] == l[j].1.0);
                }
            }
            assert(sa.under(e.0.0, e.1.0 as int));
        }
    }
//@loopend 0
    proof {
        removed_more(s0, self.keys(), own.take(i0), sa, l[i0].0.0, l[i0].1.0 as int, *store);
        assert(own.take(i0).push(l[i0].1.0 as int) =~= own.take(i0 + 1));
    }
//@end
    proof { assert(own.take(l.len() as int) =~= own); }
//@endfn
}
/// the slots ss under the keys ks are gone, and nothing else changed; a key with no slot left is forgotten
spec fn removed(s0: StoreWakers, ks: Seq<u64>, ss: Seq<int>, s1: StoreWakers) -> bool {
    &&& s1.wf()
    &&& forall|q: u64, s: int| #[trigger] s1.under(q, s) <==> s0.under(q, s) && !ss.contains(s)
    &&& forall|q: u64, s: int| #[trigger] s1.under(q, s) ==> s1.task(s) == s0.task(s) && s1.version(q) == s0.version(q)
    &&& forall|q: u64| #[trigger] s1.has(q) ==> s0.has(q) && s1.version(q) == s0.version(q)
}
proof fn map_restore<V>(a: Map<u64, V>, b: Map<u64, V>, k: u64)
    requires a.remove(k) == b.remove(k), a.contains_key(k), b.contains_key(k), a[k] == b[k],
    ensures a == b,
{
    assert(a =~= a.remove(k).insert(k, a[k]));
    assert(b =~= b.remove(k).insert(k, b[k]));
}
proof fn same_shape(a: StoreWakers, b: StoreWakers)
    requires a.wf(), b.all_wakers.wf(), a.map@ == b.map@, a.all_wakers.lists() == b.all_wakers.lists(),
    ensures
        b.wf(),
        forall|q: u64| #[trigger] b.has(q) == a.has(q) && b.version(q) == a.version(q) && b.slots(q) == a.slots(q),
        forall|q: u64, s: int| #[trigger] b.under(q, s) == a.under(q, s),
{
    assert forall|q: u64| #[trigger] b.has(q) implies b.all_wakers.lists().contains_key(b.head(q)) && b.version(q) >= 1 by { assert(a.has(q)); }
    assert forall|p: u64, q: u64| #[trigger] b.has(p) && #[trigger] b.has(q) && p != q implies b.head(p) != b.head(q) by { assert(a.has(p) && a.has(q)); }
}
proof fn removed_more(s0: StoreWakers, ks: Seq<u64>, ss: Seq<int>, s1: StoreWakers, k: u64, x: int, s2: StoreWakers)
    requires
        s0.wf(),
        removed(s0, ks, ss, s1),
        s1.under(k, x),
        s2.wf(),
        s2.slots(k) == s1.slots(k).remove(s1.slots(k).index_of(x)),
        s1.slots(k).len() <= 1 ==> !s2.has(k),
        s1.slots(k).len() > 1 ==> s2.has(k) && s2.version(k) == s1.version(k),
        s2.same_except(s1, k),
        forall|s: int| s != x && #[trigger] s1.under(k, s) ==> s2.task(s) == s1.task(s),
    ensures
        removed(s0, ks, ss.push(x), s2),
{
    let sx = ss.push(x);
    let a = s1.slots(k);
    let i = a.index_of(x);
    assert(a[i] == x);
    assert(s1.has(k));
    assert(s1.all_wakers.list_wf(s1.head(k)));
    assert forall|s: int| s2.slots(k).contains(s) == (a.contains(s) && s != x) by {
        let b = a.remove(i);
        if b.contains(s) {
            let j = b.index_of(s);
            assert(b[j] == s);
            assert(a[if j < i { j } else { j + 1 }] == s);
        }
        if a.contains(s) && s != x {
            let j = a.index_of(s);
            assert(a[j] == s);
            assert(b[if j < i { j } else { j - 1 }] == s);
        }
    }
    assert forall|s: int| sx.contains(s) == (ss.contains(s) || s == x) by {
        if ss.contains(s) { let j = ss.index_of(s); assert(sx[j] == s); }
        if s == x { assert(sx[ss.len() as int] == x); }
        if sx.contains(s) && s != x { let j = sx.index_of(s); assert(ss[j] == s); }
    }
    assert forall|q: u64, s: int| #[trigger] s2.under(q, s) == (s0.under(q, s) && !sx.contains(s)) by {
        if q != k {
            assert(s2.has(q) == s1.has(q));
            assert(s2.under(q, s) == s1.under(q, s));
            if s1.under(q, s) && s == x { s1.disjoint(q, k, x); }
        } else {
            assert(s2.under(k, s) == (s1.under(k, s) && s != x));
        }
    }
    assert forall|q: u64, s: int| #[trigger] s2.under(q, s) implies s2.task(s) == s0.task(s) && s2.version(q) == s0.version(q) by {
        assert(s1.under(q, s)) by { if q != k { assert(s2.has(q) == s1.has(q)); assert(s2.slots(q) == s1.slots(q)); } }
        if q == k { assert(s2.slots(k).len() > 0); assert(s1.slots(k).len() > 1); }
        else { assert(s2.has(q) == s1.has(q)); }
    }
    assert forall|q: u64| #[trigger] s2.has(q) implies s0.has(q) && s2.version(q) == s0.version(q) by {
        assert(s1.has(q)) by { if q != k { assert(s2.has(q) == s1.has(q)); } }
    }
}
//@fn bmg notify
//@opt world=visit_hashes,wake_entry;; param=store: &mut StoreWakers;; generics=P: Path;; expr=&mut *store.borrow_mut()->&mut *store
//@spec
    requires old(store).wf(), room(*old(store), path.segs().len() as int + 1),
    ensures
        woke(*old(store), hits(path.segs()), *final(store)),
        final(w).log@ == old(w).log@ + evs(*old(store), hits(path.segs())),
//@begin
    let ghost s0 = *store;
    let ghost l0 = w.log@;
    let ghost segs = path.segs();
    let ghost ks = bks(Seq::empty(), 0, segs);
//@before wakers.wake_entry
    let ghost s1 = *wakers;
    proof {
        assert(hash.0 == rk(Seq::empty(), 0, segs, segs.len() as int));
        assert(woke(s0, ks, s1));
        count_bound(ks, hash.0);
        assert(s1.has(hash.0) == s0.has(hash.0));
        if s0.has(hash.0) { assert(s1.version(hash.0) == s0.version(hash.0) + count(ks, hash.0)); }
    }
//@after wakers.wake_entry
    proof {
        let s2 = *wakers;
        let k = hash.0;
        assert(seq![k].drop_last() =~= Seq::<u64>::empty());
        assert forall|q: u64| count(seq![k], q) == (if q == k { 1int } else { 0 }) by { assert(count(Seq::<u64>::empty(), q) == 0); }
        assert(woke(s1, seq![k], s2));
        woke_more(s0, ks, s1, k, s2);
        assert(w.log@ =~= l0 + evs(s0, hits(segs)));
    }
//@endfn
/// the keys a change at a path wakes
spec fn hits(segs: Seq<Seq<int>>) -> Seq<u64> {
    bks(Seq::empty(), 0, segs).push(rk(Seq::empty(), 0, segs, segs.len() as int))
}
} // verus!
