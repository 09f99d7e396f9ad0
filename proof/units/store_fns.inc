verus! {
impl WakerHashEntry {
//@fn hash WakerHashEntry::value
//@spec
    ensures r == self.0,
//@endfn
//@fn hash WakerHashEntry::regular_from
//@spec
    ensures r.0 == rkey(hash, depth),
//@begin
    proof { assert(!(255u64) == !0xffu64) by (bit_vector); }
//@endfn
//@fn hash WakerHashEntry::bubbling_from
//@spec
    ensures r.0 == bkey(hash, depth),
//@endfn
}
impl Entry {
//@fn wakers Entry::new
//@spec
    requires old(all_wakers).wf(),
    ensures
        final(all_wakers).wf(),
        r.version == 1,
        !old(all_wakers).lists().contains_key(r.sublist.0 as int),
        final(all_wakers).lists() == old(all_wakers).lists().insert(r.sublist.0 as int, Seq::empty()),
        forall|s: int| 0 <= s < old(all_wakers).items@.len() ==> #[trigger] final(all_wakers).task(s) == old(all_wakers).task(s),
        forall|s: int| #[trigger] old(all_wakers).live(s) ==> final(all_wakers).live(s) && final(all_wakers).list_of(s) == old(all_wakers).list_of(s),
        final(all_wakers).items@.len() >= old(all_wakers).items@.len(),
//@endfn
}
impl<'a> WakerApi<'a> {
//@fn wakers WakerApi::add_waker_slot
//@spec
    requires old(self).all.wf(), old(self).all.lists().contains_key(old(self).entry.sublist.0 as int),
    ensures
        final(self).all.wf(),
        final(self).entry == old(self).entry,
        *final(final(self).all) == *final(old(self).all),
        !old(self).all.live(r.0 as int),
        final(self).all.lists() == old(self).all.lists().insert(old(self).entry.sublist.0 as int, old(self).all.lists()[old(self).entry.sublist.0 as int].push(r.0 as int)),
        final(self).all.task(r.0 as int) == no_task(),
        forall|s: int| 0 <= s < old(self).all.items@.len() ==> #[trigger] final(self).all.task(s) == old(self).all.task(s),
        forall|s: int| #[trigger] old(self).all.live(s) ==> final(self).all.live(s) && final(self).all.list_of(s) == old(self).all.list_of(s),
//@endfn
//@fn wakers WakerApi::set_waker
//@spec
    requires old(self).all.wf(), old(self).all.live(slot.0 as int),
    ensures
        final(self).all.wf(),
        final(self).entry == old(self).entry,
        *final(final(self).all) == *final(old(self).all),
        final(self).all.lists() == old(self).all.lists(),
        final(self).all.task(slot.0 as int) == waker.task(),
        forall|s: int| 0 <= s < old(self).all.items@.len() && s != slot.0 ==> #[trigger] final(self).all.task(s) == old(self).all.task(s),
//@endfn
//@fn wakers WakerApi::get_version
//@spec
    ensures r == old(self).entry.version, *final(self) == *old(self),
//@endfn
}
impl StoreWakers {
//@fn wakers StoreWakers::new
//@spec
    ensures r.wf(), forall|k: u64| !#[trigger] r.has(k),
//@endfn
//@fn wakers StoreWakers::get_entry
//@opt oiw
//@spec
    requires old(self).wf(),
    ensures
        r.all.wf(),
        final(self).all_wakers == *final(r.all),
        final(self).map@.remove(hash.0) == old(self).map@.remove(hash.0),
        final(self).map@.contains_key(hash.0),
        final(self).map@[hash.0] == *final(r.entry),
        old(self).has(hash.0) ==> *r.entry == old(self).map@[hash.0] && *r.all == old(self).all_wakers,
        !old(self).has(hash.0) ==> r.entry.version == 1 && !old(self).all_wakers.lists().contains_key(r.entry.sublist.0 as int)
            && r.all.lists() == old(self).all_wakers.lists().insert(r.entry.sublist.0 as int, Seq::empty()),
        forall|s: int| 0 <= s < old(self).all_wakers.items@.len() ==> #[trigger] r.all.task(s) == old(self).all_wakers.task(s),
        forall|s: int| #[trigger] old(self).all_wakers.live(s) ==> r.all.live(s) && r.all.list_of(s) == old(self).all_wakers.list_of(s),
        r.all.items@.len() >= old(self).all_wakers.items@.len(),
//@endfn
//@fn wakers StoreWakers::wake_entry
//@opt world=wake_by_ref
//@spec
    requires old(self).wf(), old(self).has(hash.0) ==> old(self).version(hash.0) < u64::MAX,
    ensures
        final(self).wf(),
        final(self).all_wakers == old(self).all_wakers,
        forall|k: u64| #[trigger] final(self).has(k) == old(self).has(k),
        forall|k: u64| old(self).has(k) ==> final(self).head(k) == #[trigger] old(self).head(k),
        forall|k: u64| old(self).has(k) ==> final(self).version(k) == #[trigger] old(self).version(k) + (if k == hash.0 { 1int } else { 0 }),
        final(w).log@ == old(w).log@ + wakes(old(self).tasks(hash.0)),
//@loop 0
    invariant
        __it1.wf(), *__it1.arena == self.all_wakers, __it1.head == entry.sublist.0,
        entry.sublist == old(self).map@[hash.0].sublist, self.all_wakers == old(self).all_wakers,
        w.log@ =~= old(w).log@ + wakes(old(self).tasks(hash.0).take(__it1.pos@)),
        old(self).has(hash.0),
        old(self).wf(),
    ensures __it1.pos@ >= old(self).slots(hash.0).len(),
    decreases old(self).slots(hash.0).len() - __it1.pos@,
//@loopend 0
    proof {
        let t = old(self).tasks(hash.0);
        assert(wakes(t.take(__it1.pos@)) =~= wakes(t.take(__it1.pos@ - 1)).push(Ev::Wake(t[__it1.pos@ - 1])));
    }
//@end
    proof {
        let t = old(self).tasks(hash.0);
        assert(t.take(t.len() as int) =~= t);
        assert(wakes(t) =~= wakes(t.take(t.len() as int)));
        assert(!old(self).has(hash.0) ==> old(w).log@ + wakes(t) =~= old(w).log@);
        assert forall|k: u64| #[trigger] self.has(k) implies old(self).has(k) && self.head(k) == old(self).head(k) && self.version(k) >= 1 by {
            assert(old(self).has(k));
        }
    }
//@endfn
//@fn wakers StoreWakers::remove_waker_slot
//@opt path=Entry::Occupied->HEntry::Occupied;; path=Entry::Vacant->HEntry::Vacant
//@spec
    requires old(self).wf(), old(self).under(hash.0, slot.0 as int),
    ensures
        final(self).wf(),
        final(self).slots(hash.0) == old(self).slots(hash.0).remove(old(self).slots(hash.0).index_of(slot.0 as int)),
        old(self).slots(hash.0).len() <= 1 ==> !final(self).has(hash.0),
        old(self).slots(hash.0).len() > 1 ==> final(self).has(hash.0) && final(self).version(hash.0) == old(self).version(hash.0),
        final(self).same_except(*old(self), hash.0),
        forall|s: int| s != slot.0 && #[trigger] old(self).under(hash.0, s) ==> final(self).task(s) == old(self).task(s),
//@begin
    proof {
        self.disjoint(hash.0, hash.0, slot.0 as int);
    }
//@end
    proof {
        let k = hash.0;
        let h = old(self).head(k);
        let s0 = old(self).slots(k);
        assert(s0.index_of(slot.0 as int) < s0.len());
        assert forall|q: u64| #[trigger] self.has(q) implies old(self).has(q) && self.head(q) == old(self).head(q) && self.version(q) == old(self).version(q) && self.all_wakers.lists().contains_key(self.head(q)) by {
            assert(old(self).has(q));
            assert(old(self).has(k));
        }
        assert forall|q: u64, s: int| q != k && #[trigger] old(self).under(q, s) implies self.task(s) == old(self).task(s) by {
            old(self).disjoint(q, q, s);
            if s == slot.0 { old(self).disjoint(q, k, s); }
        }
        assert forall|s: int| s != slot.0 && #[trigger] old(self).under(k, s) implies self.task(s) == old(self).task(s) by {
            old(self).disjoint(k, k, s);
        }
    }
//@endfn
}
} // verus!
