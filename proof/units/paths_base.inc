verus! {
proof fn count_push(ks: Seq<u64>, x: u64, q: u64)
    ensures count(ks.push(x), q) == count(ks, q) + (if x == q { 1int } else { 0 }),
{
    assert(ks.push(x).drop_last() =~= ks);
}
proof fn count_bound(ks: Seq<u64>, q: u64)
    ensures 0 <= count(ks, q) <= ks.len(),
    decreases ks.len(),
{
    if ks.len() > 0 { count_bound(ks.drop_last(), q); }
}
proof fn pre_shift(t: Seq<int>, segs: Seq<Seq<int>>, k: int)
    requires 0 <= k,
    ensures pre(t, segs, k + 1) == pre(t, segs, k) + segs[k],
{}
/// one more level after the levels segs: the parent's visit, what the level writes, then finish_one
proof fn visit_push<'a>(v0: HashVisitor<'a>, segs: Seq<Seq<int>>, v1: HashVisitor<'a>, x: Seq<int>, v2: HashVisitor<'a>, v3: HashVisitor<'a>, l0: Seq<Ev>, l1: Seq<Ev>, l2: Seq<Ev>)
    requires
        visited(v0, segs, v1, l0, l1),
        v2.t() == v1.t() + x,
        v2.behavior == v1.behavior,
        v2.depth == v1.depth,
        visited(v2, seq![Seq::<int>::empty()], v3, l1, l2),
        v0.is_wake() ==> v0.wstore().wf(),
    ensures
        visited(v0, segs.push(x), v3, l0, l2),
{
    hide(added); hide(woke);
    let e = seq![Seq::<int>::empty()];
    let s3 = segs.push(x);
    let n = segs.len() as int;
    let t = v0.t();
    let d = v0.depth;
    assert(pre(v2.t(), e, 1) =~= v2.t()) by { assert(pre(v2.t(), e, 0) == v2.t()); assert(e[0] == Seq::<int>::empty()); }
    keys_push(t, d, segs, x);
    assert(v3.t() == pre(t, s3, n + 1));
    assert(v3.depth == dep(d, n + 1)) by { assert(v3.depth == dep(dep(d, n), 1)); }
    assert(rks(v2.t(), v2.depth, e) =~= seq![rk(t, d, s3, n + 1)]);
    assert(bks(v2.t(), v2.depth, e) =~= seq![bk(t, d, s3, n + 1)]);
    if v0.is_build() {
        let b0 = v0.blist();
        let b1 = v1.blist();
        let b3 = v3.blist();
        assert(b3.take(b0.len() as int) =~= b0) by {
            assert forall|i: int| 0 <= i < b0.len() implies b3[i] == b0[i] by {
                assert(b3.take(b1.len() as int)[i] == b1[i]);
                assert(b1.take(b0.len() as int)[i] == b0[i]);
            }
        }
        let l3 = b3.skip(b0.len() as int);
        let l1 = b1.skip(b0.len() as int);
        let lx = b3.skip(b1.len() as int);
        assert(l3 =~= l1.push(lx[0])) by {
            assert forall|i: int| 0 <= i < l1.len() implies l3[i] == l1[i] by { assert(b3.take(b1.len() as int)[b0.len() + i] == b1[b0.len() + i]); }
        }
        assert(keys_of(lx)[0] == rk(t, d, s3, n + 1));
        assert(keys_of(l3) =~= keys_of(l1).push(lx[0].0.0));
        assert(slots_of(l3) =~= slots_of(l1).push(lx[0].1.0 as int));
        assert(slots_of(lx) =~= seq![lx[0].1.0 as int]);
        added_more(v0.bstore(), rks(t, d, segs), slots_of(l1), v1.bstore(), rk(t, d, s3, n + 1), lx[0].1.0 as int, v3.bstore());
    }
    if v0.is_wake() {
        let k = bk(t, d, s3, n + 1);
        woke_more(v0.wstore(), bks(t, d, segs), v1.wstore(), k, v3.wstore());
        assert(seq![k].drop_last() =~= Seq::<u64>::empty());
        assert(evs(v1.wstore(), seq![k]) =~= wakes(v1.wstore().tasks(k))) by { assert(evs(v1.wstore(), Seq::<u64>::empty()) == Seq::<Ev>::empty()); }
        assert(l2 =~= l0 + (evs(v0.wstore(), bks(t, d, segs)) + wakes(v1.wstore().tasks(k))));
    }
}
proof fn ready_after<'a>(v0: HashVisitor<'a>, segs: Seq<Seq<int>>, v1: HashVisitor<'a>, l0: Seq<Ev>, l1: Seq<Ev>)
    requires
        visited(v0, segs, v1, l0, l1),
        v0.ready(segs.len() as int + 1),
    ensures
        v1.ready(1),
{
    if v0.is_wake() {
        let ks = bks(v0.t(), v0.depth, segs);
        assert forall|k: u64| #[trigger] v1.wstore().has(k) implies v1.wstore().version(k) + 1 <= u64::MAX by {
            assert(v0.wstore().has(k));
            count_bound(ks, k);
            assert(v1.wstore().version(k) == v0.wstore().version(k) + count(ks, k));
        }
    }
}

/// x_bow::Path, as far as change notification goes: a path is the sequence of what its levels write to the hasher
trait Path {
    spec fn segs(&self) -> Seq<Seq<int>>;
    fn visit_hashes(&self, visitor: &mut HashVisitor, w: &mut World)
        requires old(visitor).ready(self.segs().len() as int),
        ensures
            visited(*old(visitor), self.segs(), *final(visitor), old(w).log@, final(w).log@),
            same_targets(*old(visitor), *final(visitor));
}
} // verus!
