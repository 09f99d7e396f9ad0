//@file wakers x-bow/src/wakers.rs
//@file hash x-bow/src/hash.rs
verus! {
// ======== x_bow::hash ========
//@struct hash WakerHashEntry
//@opt attr=#[derive(Clone, Copy)]
//@endfn
/// the key of regular listeners at a prefix hashing to h at this depth, and of bubbling ones
spec fn rkey(h: u64, d: u8) -> u64 { (h & !0xffu64) | (d as u64) }
spec fn bkey(h: u64, d: u8) -> u64 { rkey(h, d) ^ 0x33b741db0040f7eu64 }

// ======== x_bow::wakers ========
//@struct wakers StoreWakers
//@opt type=IntMap<u64,Entry>->IntMap<Entry>
//@endfn
//@struct wakers Entry
//@endfn
//@struct wakers WakerApi
//@endfn
impl StoreWakers {
    spec fn has(&self, k: u64) -> bool { self.map@.contains_key(k) }
    spec fn head(&self, k: u64) -> int { self.map@[k].sublist.0 as int }
    /// the slots registered under a key, in order
    spec fn slots(&self, k: u64) -> Seq<int> { if self.has(k) { self.all_wakers.lists()[self.head(k)] } else { Seq::empty() } }
    spec fn version(&self, k: u64) -> int { self.map@[k].version as int }
    spec fn task(&self, slot: int) -> int { self.all_wakers.task(slot) }
    /// the tasks registered under a key, in order
    spec fn tasks(&self, k: u64) -> Seq<int> { self.slots(k).map_values(|s: int| self.task(s)) }
    /// the slot is registered under the key
    spec fn under(&self, k: u64, slot: int) -> bool { self.slots(k).contains(slot) }
    spec fn wf(&self) -> bool {
        &&& self.all_wakers.wf()
        &&& forall|k: u64| #[trigger] self.has(k) ==> self.all_wakers.lists().contains_key(self.head(k)) && self.version(k) >= 1
        &&& forall|k: u64, q: u64| #[trigger] self.has(k) && #[trigger] self.has(q) && k != q ==> self.head(k) != self.head(q)
    }
    /// nothing but the slots, tasks and versions under key k differs
    spec fn same_except(&self, o: StoreWakers, k: u64) -> bool {
        &&& forall|q: u64| q != k ==> #[trigger] self.has(q) == o.has(q) && self.version(q) == o.version(q) && self.slots(q) == o.slots(q)
        &&& forall|q: u64, s: int| q != k && #[trigger] o.under(q, s) ==> self.task(s) == o.task(s)
    }
    proof fn disjoint(&self, k: u64, q: u64, s: int)
        requires self.wf(), self.under(k, s), self.under(q, s),
        ensures k == q, self.all_wakers.live(s), self.all_wakers.list_of(s) == self.head(k),
    {
        assert(self.has(k) && self.has(q));
        assert(self.all_wakers.list_wf(self.head(k)));
        assert(self.all_wakers.list_wf(self.head(q)));
    }
}
} // verus!
