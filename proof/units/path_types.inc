//@file hv x-bow/src/hash_visitor.rs
//@file path x-bow/src/path.rs
verus! {
// ======== trusted contract on std DefaultHasher: a function of what was written, in order ========
pub uninterp spec fn h64(toks: Seq<int>) -> u64;
pub uninterp spec fn tok_u8(x: u8) -> Seq<int>;
pub uninterp spec fn tok_usize(x: usize) -> Seq<int>;
pub struct HasherType { pub toks: Ghost<Seq<int>> }
impl HasherType {
    pub fn new() -> (r: Self)
        ensures r.toks@ == Seq::<int>::empty(),
    { HasherType { toks: Ghost(Seq::empty()) } }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64)
        ensures r == h64(self.toks@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u8(&mut self, x: u8)
        ensures final(self).toks@ == old(self).toks@ + tok_u8(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_usize(&mut self, x: usize)
        ensures final(self).toks@ == old(self).toks@ + tok_usize(x),
    { unimplemented!() }
}
/// std::hash::Hash of a map key
pub trait Hash {
    spec fn toks(&self) -> Seq<int>;
    fn hash(&self, h: &mut HasherType)
        ensures final(h).toks@ == old(h).toks@ + self.toks();
}

// ======== x_bow::hash_visitor ========
//@struct hv HashVisitor
//@endfn
//@enum hv HashVisitorBehavior
//@endfn

/// what has been hashed after the first k levels of a path
spec fn pre(t: Seq<int>, segs: Seq<Seq<int>>, k: int) -> Seq<int>
    decreases k,
{
    if k <= 0 { t } else { pre(t, segs, k - 1) + segs[k - 1] }
}
spec fn dep(d: u8, k: int) -> u8 { ((d + k) % 256) as u8 }
spec fn rk(t: Seq<int>, d: u8, segs: Seq<Seq<int>>, k: int) -> u64 { rkey(h64(pre(t, segs, k)), dep(d, k)) }
spec fn bk(t: Seq<int>, d: u8, segs: Seq<Seq<int>>, k: int) -> u64 { bkey(h64(pre(t, segs, k)), dep(d, k)) }
/// the keys of the prefixes of a path
spec fn rks(t: Seq<int>, d: u8, segs: Seq<Seq<int>>) -> Seq<u64> { Seq::new(segs.len(), |i: int| rk(t, d, segs, i + 1)) }
spec fn bks(t: Seq<int>, d: u8, segs: Seq<Seq<int>>) -> Seq<u64> { Seq::new(segs.len(), |i: int| bk(t, d, segs, i + 1)) }
proof fn pre_push(t: Seq<int>, segs: Seq<Seq<int>>, x: Seq<int>, k: int)
    requires 0 <= k <= segs.len(),
    ensures pre(t, segs.push(x), k) == pre(t, segs, k),
    decreases k,
{
    if k > 0 { pre_push(t, segs, x, k - 1); }
}
proof fn keys_push(t: Seq<int>, d: u8, segs: Seq<Seq<int>>, x: Seq<int>)
    ensures
        rks(t, d, segs.push(x)) == rks(t, d, segs).push(rk(t, d, segs.push(x), segs.len() as int + 1)),
        bks(t, d, segs.push(x)) == bks(t, d, segs).push(bk(t, d, segs.push(x), segs.len() as int + 1)),
        pre(t, segs.push(x), segs.len() as int + 1) == pre(t, segs, segs.len() as int) + x,
{
    assert forall|i: int| 0 <= i < segs.len() implies #[trigger] pre(t, segs.push(x), i + 1) == pre(t, segs, i + 1) by { pre_push(t, segs, x, i + 1); }
    pre_push(t, segs, x, segs.len() as int);
    assert(rks(t, d, segs.push(x)) =~= rks(t, d, segs).push(rk(t, d, segs.push(x), segs.len() as int + 1)));
    assert(bks(t, d, segs.push(x)) =~= bks(t, d, segs).push(bk(t, d, segs.push(x), segs.len() as int + 1)));
}

/// slots ss were added under the keys ks, each to one, and nothing else changed
spec fn added(s0: StoreWakers, ks: Seq<u64>, ss: Seq<int>, s1: StoreWakers) -> bool {
    &&& s1.wf()
    &&& ks.len() == ss.len()
    &&& forall|i: int| 0 <= i < ks.len() ==> s1.under(ks[i], #[trigger] ss[i]) && s1.task(ss[i]) == no_task()
    &&& forall|q: u64, s: int| #[trigger] s1.under(q, s) ==> s0.under(q, s) || (ss.contains(s) && exists|i: int| 0 <= i < ks.len() && ks[i] == q && #[trigger] ss[i] == s)
    &&& forall|q: u64, s: int| #[trigger] s0.under(q, s) ==> s1.under(q, s) && s1.task(s) == s0.task(s) && !ss.contains(s)
    &&& forall|q: u64| #[trigger] s0.has(q) ==> s1.has(q) && s1.version(q) == s0.version(q)
    &&& forall|q: u64| #[trigger] s1.has(q) ==> s0.has(q) || s1.version(q) == 1
    &&& ss.no_duplicates()
}
spec fn count(ks: Seq<u64>, q: u64) -> int
    decreases ks.len(),
{
    if ks.len() == 0 { 0 } else { count(ks.drop_last(), q) + (if ks.last() == q { 1int } else { 0 }) }
}
spec fn evs(s: StoreWakers, ks: Seq<u64>) -> Seq<Ev>
    decreases ks.len(),
{
    if ks.len() == 0 { Seq::empty() } else { evs(s, ks.drop_last()) + wakes(s.tasks(ks.last())) }
}
/// the keys ks were woken one after another, and nothing but their versions changed
spec fn woke(s0: StoreWakers, ks: Seq<u64>, s1: StoreWakers) -> bool {
    &&& s1.wf()
    &&& s1.all_wakers == s0.all_wakers
    &&& forall|k: u64| #[trigger] s1.has(k) == s0.has(k)
    &&& forall|k: u64| s0.has(k) ==> s1.head(k) == #[trigger] s0.head(k)
    &&& forall|k: u64| s0.has(k) ==> s1.version(k) == #[trigger] s0.version(k) + count(ks, k)
}
spec fn room(s: StoreWakers, n: int) -> bool { forall|k: u64| #[trigger] s.has(k) ==> s.version(k) + n <= u64::MAX }
spec fn keys_of(l: Seq<(WakerHashEntry, WakerSlot)>) -> Seq<u64> { l.map_values(|e: (WakerHashEntry, WakerSlot)| e.0.0) }
spec fn slots_of(l: Seq<(WakerHashEntry, WakerSlot)>) -> Seq<int> { l.map_values(|e: (WakerHashEntry, WakerSlot)| e.1.0 as int) }

proof fn added_none(s: StoreWakers)
    requires s.wf(),
    ensures added(s, Seq::empty(), Seq::empty(), s),
{}
proof fn added_more(s0: StoreWakers, ks: Seq<u64>, ss: Seq<int>, s1: StoreWakers, k: u64, x: int, s2: StoreWakers)
    requires added(s0, ks, ss, s1), added(s1, seq![k], seq![x], s2),
    ensures added(s0, ks.push(k), ss.push(x), s2),
{
    let kk = ks.push(k);
    let xx = ss.push(x);
    let sx = seq![x];
    let sk = seq![k];
    assert(sx[0] == x && sk[0] == k);
    assert(s2.under(sk[0], sx[0]));
    assert(sx.contains(x));
    assert(xx[ss.len() as int] == x && kk[ks.len() as int] == k);
    assert forall|i: int| 0 <= i < kk.len() implies s2.under(kk[i], #[trigger] xx[i]) && s2.task(xx[i]) == no_task() by {
        if i < ks.len() { assert(s1.under(ks[i], ss[i])); }
    }
    assert forall|q: u64, s: int| #[trigger] s2.under(q, s) implies s0.under(q, s) || (xx.contains(s) && exists|i: int| 0 <= i < kk.len() && kk[i] == q && #[trigger] xx[i] == s) by {
        if s1.under(q, s) {
            if !s0.under(q, s) {
                let i = choose|i: int| 0 <= i < ks.len() && ks[i] == q && #[trigger] ss[i] == s;
                assert(kk[i] == q && xx[i] == s);
            }
        } else {
            let i = choose|i: int| 0 <= i < sk.len() && sk[i] == q && #[trigger] sx[i] == s;
            assert(kk[ks.len() as int] == q && xx[ss.len() as int] == s);
        }
    }
    assert forall|q: u64, s: int| #[trigger] s0.under(q, s) implies s2.under(q, s) && s2.task(s) == s0.task(s) && !xx.contains(s) by {
        assert(s1.under(q, s));
        if xx.contains(s) {
            let i = choose|i: int| 0 <= i < xx.len() && xx[i] == s;
            if i < ss.len() { assert(ss[i] == s); assert(ss.contains(s)); }
        }
    }
    assert forall|q: u64| #[trigger] s0.has(q) implies s2.has(q) && s2.version(q) == s0.version(q) by { assert(s1.has(q)); }
    assert forall|q: u64| #[trigger] s2.has(q) implies s0.has(q) || s2.version(q) == 1 by { assert(s1.has(q) || s2.version(q) == 1); }
    assert forall|i: int, j: int| 0 <= i < xx.len() && 0 <= j < xx.len() && i != j implies xx[i] != xx[j] by {
        if i < ss.len() { assert(s1.under(ks[i], ss[i])); }
        if j < ss.len() { assert(s1.under(ks[j], ss[j])); }
    }
}
proof fn woke_none(s: StoreWakers)
    requires s.wf(),
    ensures woke(s, Seq::empty(), s), evs(s, Seq::empty()) == Seq::<Ev>::empty(),
{}
proof fn woke_more(s0: StoreWakers, ks: Seq<u64>, s1: StoreWakers, k: u64, s2: StoreWakers)
    requires woke(s0, ks, s1), woke(s1, seq![k], s2),
    ensures
        woke(s0, ks.push(k), s2),
        evs(s0, ks.push(k)) == evs(s0, ks) + wakes(s1.tasks(k)),
{
    assert(ks.push(k).drop_last() =~= ks);
    assert(seq![k].drop_last() =~= Seq::<u64>::empty());
    assert(count(Seq::<u64>::empty(), k) == 0);
    assert(s1.tasks(k) =~= s0.tasks(k)) by { assert(s1.has(k) == s0.has(k)); if s0.has(k) { assert(s1.head(k) == s0.head(k)); } }
    assert forall|q: u64| #[trigger] s2.has(q) == s0.has(q) by { assert(s1.has(q) == s0.has(q)); }
    assert forall|q: u64| s0.has(q) implies s2.head(q) == #[trigger] s0.head(q) by { assert(s1.has(q) == s0.has(q)); assert(s1.head(q) == s0.head(q)); }
    assert forall|q: u64| s0.has(q) implies s2.version(q) == #[trigger] s0.version(q) + count(ks.push(k), q) by {
        assert(s1.has(q) == s0.has(q));
        assert(s1.version(q) == s0.version(q) + count(ks, q));
        assert(count(seq![k], q) == count(seq![k].drop_last(), q) + (if seq![k].last() == q { 1int } else { 0 }));
        assert(s2.version(q) == s1.version(q) + count(seq![k], q));
    }
}
} // verus!
