//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include intmap.inc
//@include iters.inc
//@include arena_types.inc
//@default cell;; pin
//@include store_types.inc
//@contracts on
//@include arena_fns.inc
//@include store_fns.inc
//@include path_types.inc
//@include path_fns.inc
//@include paths.inc
//@include stream_fns.inc
//@contracts off
verus! {
// ======== every history: the most general client of a store's change streams (X01, X02) ========
spec fn rkp(p: Seq<Seq<int>>, k: int) -> u64 { rk(Seq::empty(), 0, p, k) }
spec fn bkp(p: Seq<Seq<int>>, k: int) -> u64 { bk(Seq::empty(), 0, p, k) }
spec fn prefix(p: Seq<Seq<int>>, q: Seq<Seq<int>>) -> bool { p.len() <= q.len() && p == q.take(p.len() as int) }
/// no two different prefixes of the two paths have the same 64-bit key
spec fn apart(p: Seq<Seq<int>>, q: Seq<Seq<int>>) -> bool {
    &&& forall|k: int, l: int| 1 <= k <= p.len() && 1 <= l <= q.len() && #[trigger] rkp(p, k) == #[trigger] rkp(q, l) ==> p.take(k) == q.take(l)
    &&& forall|k: int, l: int| 1 <= k <= p.len() && 1 <= l <= q.len() && #[trigger] bkp(p, k) == #[trigger] bkp(q, l) ==> p.take(k) == q.take(l)
    &&& forall|k: int, l: int| 1 <= k <= p.len() && 1 <= l <= q.len() ==> #[trigger] rkp(p, k) != #[trigger] bkp(q, l)
    &&& forall|k: int, l: int| 1 <= k <= p.len() && 1 <= l <= q.len() ==> #[trigger] bkp(p, k) != #[trigger] rkp(q, l)
}
/// a stream at p (bubbling or not) is meant to see a change at q
spec fn affected(p: Seq<Seq<int>>, bub: bool, q: Seq<Seq<int>>) -> bool { if bub { prefix(p, q) } else { prefix(q, p) } }
spec fn skeys(p: Seq<Seq<int>>, bub: bool) -> Seq<u64> { if bub { seq![bkp(p, p.len() as int)] } else { rks(Seq::empty(), 0, p) } }

proof fn pre_take(t: Seq<int>, p: Seq<Seq<int>>, n: int, k: int)
    requires 0 <= k <= n <= p.len(),
    ensures pre(t, p.take(n), k) == pre(t, p, k),
    decreases k,
{
    if k > 0 { pre_take(t, p, n, k - 1); assert(p.take(n)[k - 1] == p[k - 1]); }
}
proof fn same_key(p: Seq<Seq<int>>, q: Seq<Seq<int>>, k: int)
    requires 0 <= k <= p.len(), k <= q.len(), p.take(k) == q.take(k),
    ensures rkp(p, k) == rkp(q, k), bkp(p, k) == bkp(q, k),
{
    pre_take(Seq::empty(), p, k, k);
    pre_take(Seq::empty(), q, k, k);
}
proof fn count_has(ks: Seq<u64>, q: u64)
    ensures count(ks, q) > 0 <==> ks.contains(q), ks.no_duplicates() ==> count(ks, q) <= 1,
    decreases ks.len(),
{
    if ks.len() > 0 {
        let d = ks.drop_last();
        count_has(d, q);
        count_bound(d, q);
        if ks.contains(q) && ks.last() != q { let j = ks.index_of(q); assert(d[j] == q); }
        if d.contains(q) { let j = d.index_of(q); assert(ks[j] == q); }
        if ks.last() == q { assert(ks[ks.len() - 1] == q); }
        if ks.no_duplicates() {
            assert(d.no_duplicates());
            if ks.last() == q && d.contains(q) { let j = d.index_of(q); assert(ks[j] == ks[ks.len() - 1]); }
        }
    }
}
/// a change's keys are pairwise different
proof fn hits_distinct(q: Seq<Seq<int>>)
    requires apart(q, q), q.len() >= 1,
    ensures hits(q).no_duplicates(),
{
    let h = hits(q);
    let m = q.len() as int;
    assert forall|i: int, j: int| 0 <= i < h.len() && 0 <= j < h.len() && i != j implies h[i] != h[j] by {
        if i < m && j < m {
            assert(h[i] == bkp(q, i + 1) && h[j] == bkp(q, j + 1));
            if h[i] == h[j] { assert(q.take(i + 1).len() == q.take(j + 1).len()); }
        } else if i < m {
            assert(h[i] == bkp(q, i + 1) && h[j] == rkp(q, m));
        } else {
            assert(h[j] == bkp(q, j + 1) && h[i] == rkp(q, m));
        }
    }
}
/// level j of a stream's keys is hit by a change exactly if it is the level the change is meant for
spec fn level(p: Seq<Seq<int>>, bub: bool, q: Seq<Seq<int>>, j: int) -> bool {
    affected(p, bub, q) && (bub || j == q.len() - 1)
}
proof fn hit_level(p: Seq<Seq<int>>, bub: bool, q: Seq<Seq<int>>, j: int)
    requires apart(p, q), p.len() >= 1, q.len() >= 1, 0 <= j < skeys(p, bub).len(),
    ensures hits(q).contains(skeys(p, bub)[j]) <==> level(p, bub, q, j),
{
    let h = hits(q);
    let m = q.len() as int;
    let n = p.len() as int;
    let key = skeys(p, bub)[j];
    if bub {
        assert(key == bkp(p, n));
        if h.contains(key) {
            let i = h.index_of(key);
            assert(h[i] == key);
            if i == m { assert(h[i] == rkp(q, m)); } else { assert(h[i] == bkp(q, i + 1)); assert(p.take(n) =~= p); assert(q.take(i + 1).len() == i + 1); }
        }
        if prefix(p, q) {
            assert(p.take(n) =~= p);
            same_key(p, q, n);
            assert(h[n - 1] == bkp(q, n));
        }
    } else {
        assert(key == rkp(p, j + 1));
        if h.contains(key) {
            let i = h.index_of(key);
            assert(h[i] == key);
            if i < m { assert(h[i] == bkp(q, i + 1)); } else { assert(h[i] == rkp(q, m)); assert(q.take(m) =~= q); assert(p.take(j + 1).len() == j + 1); }
        }
        if prefix(q, p) && j == m - 1 {
            assert(q.take(m) =~= q);
            same_key(p, q, m);
            assert(h[m] == rkp(q, m));
        }
    }
}
/// the slots a sequence of keys wakes, in order
spec fn wslots(s: StoreWakers, ks: Seq<u64>) -> Seq<int>
    decreases ks.len(),
{
    if ks.len() == 0 { Seq::empty() } else { wslots(s, ks.drop_last()) + s.slots(ks.last()) }
}
proof fn wslots_facts(s: StoreWakers, ks: Seq<u64>)
    requires s.wf(), ks.no_duplicates(),
    ensures
        wslots(s, ks).no_duplicates(),
        forall|x: int| #[trigger] wslots(s, ks).contains(x) <==> exists|k: u64| ks.contains(k) && s.under(k, x),
        evs(s, ks) == wakes(wslots(s, ks).map_values(|x: int| s.task(x))),
    decreases ks.len(),
{
    let ws = wslots(s, ks);
    if ks.len() == 0 {
        assert(evs(s, ks) =~= wakes(ws.map_values(|x: int| s.task(x))));
    } else {
        let d = ks.drop_last();
        let k1 = ks.last();
        wslots_facts(s, d);
        let a = wslots(s, d);
        let b = s.slots(k1);
        if s.has(k1) { assert(s.all_wakers.list_wf(s.head(k1))); }
        assert(ks[ks.len() - 1] == k1);
        assert forall|k: u64| ks.contains(k) == (d.contains(k) || k == k1) by {
            if ks.contains(k) && k != k1 { let j = ks.index_of(k); assert(d[j] == k); }
            if d.contains(k) { let j = d.index_of(k); assert(ks[j] == k); }
        }
        assert(!d.contains(k1)) by { if d.contains(k1) { let j = d.index_of(k1); assert(ks[j] == ks[ks.len() - 1]); } }
        assert forall|x: int| #[trigger] ws.contains(x) == (a.contains(x) || b.contains(x)) by {
            if ws.contains(x) { let j = ws.index_of(x); if j < a.len() { assert(a[j] == x); } else { assert(b[j - a.len()] == x); } }
            if a.contains(x) { let j = a.index_of(x); assert(ws[j] == x); }
            if b.contains(x) { let j = b.index_of(x); assert(ws[a.len() + j] == x); }
        }
        assert forall|x: int| !(a.contains(x) && b.contains(x)) by {
            if a.contains(x) && b.contains(x) {
                let k = choose|k: u64| d.contains(k) && s.under(k, x);
                s.disjoint(k, k1, x);
            }
        }
        assert forall|i: int, j: int| 0 <= i < ws.len() && 0 <= j < ws.len() && i != j implies ws[i] != ws[j] by {
            if i < a.len() && j < a.len() { assert(a[i] != a[j]); }
            else if i >= a.len() && j >= a.len() { assert(b[i - a.len()] != b[j - a.len()]); }
            else {
                let (u, v) = if i < a.len() { (i, j) } else { (j, i) };
                assert(a.contains(a[u]));
                assert(b.contains(b[v - a.len()]));
            }
        }
        assert forall|x: int| #[trigger] ws.contains(x) <==> exists|k: u64| ks.contains(k) && s.under(k, x) by {
            if a.contains(x) { let k = choose|k: u64| d.contains(k) && s.under(k, x); assert(ks.contains(k)); }
            if b.contains(x) { assert(s.under(k1, x)); assert(ks.contains(k1)); }
            if exists|k: u64| ks.contains(k) && s.under(k, x) {
                let k = choose|k: u64| ks.contains(k) && s.under(k, x);
                if k != k1 { assert(d.contains(k)); }
            }
        }
        assert(ws.map_values(|x: int| s.task(x)) =~= a.map_values(|x: int| s.task(x)) + b.map_values(|x: int| s.task(x)));
        assert(evs(s, ks) =~= wakes(ws.map_values(|x: int| s.task(x))));
    }
}
/// how a change moves the sum of the versions of a stream
proof fn sum_moves(s0: StoreWakers, s1: StoreWakers, c: UntilChange, p: Seq<Seq<int>>, bub: bool, q: Seq<Seq<int>>, k: int)
    requires
        c.on(s0), c.keys() == skeys(p, bub), woke(s0, hits(q), s1),
        apart(p, q), apart(q, q), p.len() >= 1, q.len() >= 1, 0 <= k <= c.slots@.len(),
    ensures
        vsum(s1, c.slots@, k) == vsum(s0, c.slots@, k) + (if affected(p, bub, q) && k > (if bub { 0 } else { q.len() - 1 }) { 1int } else { 0 }),
    decreases k,
{
    if k > 0 {
        sum_moves(s0, s1, c, p, bub, q, k - 1);
        c.on_facts(s0);
        let key = c.slots@[k - 1].0.0;
        assert(c.keys()[k - 1] == key);
        hit_level(p, bub, q, k - 1);
        hits_distinct(q);
        count_has(hits(q), key);
        count_bound(hits(q), key);
        assert(s1.version(key) == s0.version(key) + count(hits(q), key));
    }
}

enum Op<P> { Watch(P, bool), Poll(usize, Waker), Stop(usize), Change(P) }
spec fn names<P: Path>(o: Op<P>) -> bool { o is Watch || o is Change }
spec fn path_of<P: Path>(o: Op<P>) -> Seq<Seq<int>> { match o { Op::Watch(p, _) => p.segs(), Op::Change(p) => p.segs(), _ => Seq::empty() } }
/// what the properties say a stream is
ghost struct Sub { path: Seq<Seq<int>>, bub: bool, task: int, polled: bool, changed: bool }
const LIMIT: u64 = 0x8000_0000;

spec fn small(s: StoreWakers, n: int) -> bool { forall|q: u64| #[trigger] s.has(q) ==> s.version(q) <= 1 + n }
#[verifier::opaque]
spec fn agree1(s: StoreWakers, c: UntilChange, u: Sub) -> bool {
    &&& c.on(s)
    &&& u.path.len() >= 1
    &&& c.keys() == skeys(u.path, u.bub)
    &&& forall|x: int| c.own().contains(x) ==> #[trigger] s.task(x) == u.task
    &&& c.polled() == u.polled
    &&& c.last_version <= c.sum(s)
    &&& u.polled ==> u.changed == (c.last_version != c.sum(s))
}
#[verifier::opaque]
/// every slot of the store belongs to one of the streams, at the place where it says so
spec fn owned(s: StoreWakers, cs: Seq<UntilChange>) -> bool {
    forall|q: u64, x: int| #[trigger] s.under(q, x) ==> exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).own().contains(x)
}
#[verifier::opaque]
spec fn disj(cs: Seq<UntilChange>) -> bool {
    forall|i: int, j: int, x: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j && #[trigger] cs[i].own().contains(x) ==> !#[trigger] cs[j].own().contains(x)
}
spec fn agree(s: StoreWakers, cs: Seq<UntilChange>, m: Seq<Sub>) -> bool {
    &&& s.wf()
    &&& m.len() == cs.len()
    &&& forall|i: int| 0 <= i < cs.len() ==> agree1(s, #[trigger] cs[i], m[i])
    &&& owned(s, cs)
    &&& disj(cs)
}
/// X01/X02 about the wakes of a change: every affected live stream's task is woken through exactly one of its slots, the others through none
spec fn woken_right(s: StoreWakers, cs: Seq<UntilChange>, m: Seq<Sub>, q: Seq<Seq<int>>, woken: Seq<int>) -> bool {
    &&& woken.no_duplicates()
    &&& forall|i: int| 0 <= i < cs.len() && affected(m[i].path, m[i].bub, q) ==> #[trigger] through(s, cs[i], m[i], woken)
    &&& forall|i: int| 0 <= i < cs.len() ==> #[trigger] once(cs[i], woken)
    &&& forall|x: int| #[trigger] woken.contains(x) ==> exists|i: int| 0 <= i < cs.len() && #[trigger] meant(cs[i], m[i], q, x)
}
/// a slot of the stream, registered for its task, is woken
spec fn through(s: StoreWakers, c: UntilChange, u: Sub, woken: Seq<int>) -> bool { exists|x: int| #[trigger] woken.contains(x) && c.own().contains(x) && s.task(x) == u.task }
/// no two slots of the stream are woken
spec fn once(c: UntilChange, woken: Seq<int>) -> bool { forall|x: int, y: int| #[trigger] woken.contains(x) && #[trigger] woken.contains(y) && c.own().contains(x) && c.own().contains(y) ==> x == y }
spec fn meant(c: UntilChange, u: Sub, q: Seq<Seq<int>>, x: int) -> bool { c.own().contains(x) && affected(u.path, u.bub, q) }
proof fn owner(s: StoreWakers, cs: Seq<UntilChange>, q: u64, x: int) -> (i: int)
    requires owned(s, cs), s.under(q, x),
    ensures 0 <= i < cs.len(), cs[i].own().contains(x),
{
    reveal(owned);
    choose|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).own().contains(x)
}
proof fn apart_slots(cs: Seq<UntilChange>, i: int, j: int, x: int)
    requires disj(cs), 0 <= i < cs.len(), 0 <= j < cs.len(), i != j, cs[i].own().contains(x),
    ensures !cs[j].own().contains(x),
{ reveal(disj); }
proof fn keep_sum(s: StoreWakers, t: StoreWakers, c: UntilChange)
    requires c.on(s), forall|q: u64| #[trigger] s.has(q) ==> t.version(q) == s.version(q),
    ensures c.sum(t) == c.sum(s),
{
    c.on_facts(s);
    vsum_ext(s, t, c.slots@, c.slots@.len() as int);
}
proof fn own_under(s: StoreWakers, c: UntilChange, x: int)
    requires c.on(s), c.own().contains(x),
    ensures exists|j: int| 0 <= j < c.slots@.len() && c.own()[j] == x && #[trigger] s.under(c.keys()[j], x),
{
    let j = c.own().index_of(x);
    assert(c.own()[j] == c.slots@[j].1.0);
    assert(c.keys()[j] == c.slots@[j].0.0);
    assert(s.under(c.keys()[j], x));
}
proof fn sum_small(s: StoreWakers, c: UntilChange, n: int, k: int)
    requires c.on(s), small(s, n), 0 <= k <= c.slots@.len(),
    ensures vsum(s, c.slots@, k) <= k * (1 + n),
    decreases k,
{
    if k > 0 {
        sum_small(s, c, n, k - 1);
        c.on_facts(s);
        let e = c.slots@[k - 1];
        assert(s.has(e.0.0));
        assert((k - 1) * (1 + n) + (1 + n) == k * (1 + n)) by (nonlinear_arith);
    } else {
        assert(0 * (1 + n) == 0) by (nonlinear_arith);
    }
}
proof fn woke_shape(s0: StoreWakers, h: Seq<u64>, s1: StoreWakers)
    requires woke(s0, h, s1),
    ensures
        forall|k: u64, x: int| #[trigger] s1.under(k, x) == s0.under(k, x),
        forall|x: int| #[trigger] s1.task(x) == s0.task(x),
{
    assert forall|k: u64, x: int| #[trigger] s1.under(k, x) == s0.under(k, x) by {
        assert(s1.has(k) == s0.has(k));
        if s0.has(k) { assert(s1.head(k) == s0.head(k)); }
    }
}
proof fn change_one(s0: StoreWakers, s1: StoreWakers, c: UntilChange, u: Sub, q: Seq<Seq<int>>)
    requires agree1(s0, c, u), woke(s0, hits(q), s1), q.len() >= 1, apart(q, q), apart(u.path, q),
    ensures agree1(s1, c, Sub { changed: u.changed || affected(u.path, u.bub, q), ..u }),
{
    reveal(agree1);
    woke_shape(s0, hits(q), s1);
    sum_moves(s0, s1, c, u.path, u.bub, q, c.slots@.len() as int);
    assert(c.keys().len() == c.slots@.len());
    assert(skeys(u.path, u.bub).len() == (if u.bub { 1 } else { u.path.len() }));
    assert forall|i: int| 0 <= i < c.slots@.len() implies s1.under((#[trigger] c.slots@[i]).0.0, c.slots@[i].1.0 as int) by {
        assert(s0.under(c.slots@[i].0.0, c.slots@[i].1.0 as int));
    }
}
proof fn change_step(s0: StoreWakers, s1: StoreWakers, cs: Seq<UntilChange>, m: Seq<Sub>, q: Seq<Seq<int>>)
    requires
        agree(s0, cs, m), woke(s0, hits(q), s1), q.len() >= 1, apart(q, q),
        forall|i: int| 0 <= i < m.len() ==> apart((#[trigger] m[i]).path, q),
    ensures
        agree(s1, cs, m.map_values(|u: Sub| Sub { changed: u.changed || affected(u.path, u.bub, q), ..u })),
        woken_right(s0, cs, m, q, wslots(s0, hits(q))),
        evs(s0, hits(q)) == wakes(wslots(s0, hits(q)).map_values(|x: int| s0.task(x))),
{
    let h = hits(q);
    let ws = wslots(s0, h);
    let m1 = m.map_values(|u: Sub| Sub { changed: u.changed || affected(u.path, u.bub, q), ..u });
    hits_distinct(q);
    wslots_facts(s0, h);
    woke_shape(s0, h, s1);
    assert forall|i: int| 0 <= i < cs.len() implies agree1(s1, #[trigger] cs[i], m1[i]) by {
        assert(agree1(s0, cs[i], m[i]));
        change_one(s0, s1, cs[i], m[i], q);
    }
    assert(owned(s1, cs)) by { reveal(owned); }
    assert forall|i: int| 0 <= i < cs.len() && affected(m[i].path, m[i].bub, q) implies #[trigger] through(s0, cs[i], m[i], ws) by {
        let c = cs[i];
        assert(agree1(s0, c, m[i]));
        reveal(agree1);
        let j = if m[i].bub { 0int } else { q.len() - 1 };
        hit_level(m[i].path, m[i].bub, q, j);
        assert(c.keys().len() == c.slots@.len());
        let e = c.slots@[j];
        assert(c.keys()[j] == e.0.0);
        assert(c.own()[j] == e.1.0);
        assert(s0.under(e.0.0, e.1.0 as int));
        assert(ws.contains(e.1.0 as int));
        assert(c.own().contains(e.1.0 as int));
    }
    assert forall|i: int| 0 <= i < cs.len() implies #[trigger] once(cs[i], ws) by {
        let c = cs[i];
        assert(agree1(s0, c, m[i]));
        assert forall|x: int, y: int| #[trigger] ws.contains(x) && #[trigger] ws.contains(y) && c.own().contains(x) && c.own().contains(y) implies x == y by {
            at_level(s0, c, m[i], q, x);
            at_level(s0, c, m[i], q, y);
        }
    }
    assert forall|x: int| #[trigger] ws.contains(x) implies exists|i: int| 0 <= i < cs.len() && #[trigger] meant(cs[i], m[i], q, x) by {
        let k = choose|k: u64| h.contains(k) && s0.under(k, x);
        assert(s0.under(k, x));
        let i = owner(s0, cs, k, x);
        assert(agree1(s0, cs[i], m[i]));
        at_level(s0, cs[i], m[i], q, x);
        assert(meant(cs[i], m[i], q, x));
    }
}
/// a woken slot of a stream is the one of the level meant
proof fn at_level(s: StoreWakers, c: UntilChange, u: Sub, q: Seq<Seq<int>>, x: int)
    requires agree1(s, c, u), c.own().contains(x), wslots(s, hits(q)).contains(x), apart(u.path, q), apart(q, q), q.len() >= 1,
    ensures affected(u.path, u.bub, q), x == c.own()[if u.bub { 0int } else { q.len() - 1 }],
{
    reveal(agree1);
    let h = hits(q);
    hits_distinct(q);
    wslots_facts(s, h);
    own_under(s, c, x);
    let j = choose|j: int| 0 <= j < c.slots@.len() && c.own()[j] == x && #[trigger] s.under(c.keys()[j], x);
    let k = choose|k: u64| h.contains(k) && s.under(k, x);
    s.disjoint(k, c.keys()[j], x);
    assert(c.keys().len() == c.slots@.len());
    hit_level(u.path, u.bub, q, j);
}
fn every_history<P: Path>(ops: Vec<Op<P>>, w: &mut World)
    requires
        ops@.len() < LIMIT,
        forall|i: int| 0 <= i < ops@.len() && names(#[trigger] ops@[i]) ==> 1 <= path_of(ops@[i]).len() < LIMIT,
        // apart from 64-bit hash collisions
        forall|i: int, j: int| 0 <= i < ops@.len() && 0 <= j < ops@.len() && names(#[trigger] ops@[i]) && names(#[trigger] ops@[j]) ==> apart(path_of(ops@[i]), path_of(ops@[j])),
{
    let mut s = StoreWakers::new();
    let mut cs: Vec<UntilChange> = Vec::new();
    let ghost mut m: Seq<Sub> = Seq::empty();
    let mut k: usize = 0;
    proof {
        assert forall|q: u64, x: int| !#[trigger] s.under(q, x) by { assert(!s.has(q)); }
        reveal(owned);
        reveal(disj);
    }
    while k < ops.len()
        invariant
            k <= ops@.len() < LIMIT,
            forall|i: int| 0 <= i < ops@.len() && names(#[trigger] ops@[i]) ==> 1 <= path_of(ops@[i]).len() < LIMIT,
            forall|i: int, j: int| 0 <= i < ops@.len() && 0 <= j < ops@.len() && names(#[trigger] ops@[i]) && names(#[trigger] ops@[j]) ==> apart(path_of(ops@[i]), path_of(ops@[j])),
            small(s, k as int),
            agree(s, cs@, m),
            forall|i: int| 0 <= i < m.len() ==> exists|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == (#[trigger] m[i]).path,
        decreases ops@.len() - k,
    {
        let ghost s0 = s;
        let ghost c0 = cs@;
        let ghost m0 = m;
        let ghost op = ops@[k as int];
        match &ops[k] {
            Op::Watch(p, bub) => {
                let c = if *bub { UntilChange::new_bubbling(&mut s, p, w) } else { UntilChange::new(&mut s, p, w) };
                cs.push(c);
                proof {
                    assert(names(op));
                    let u = Sub { path: p.segs(), bub: *bub, task: no_task(), polled: false, changed: false };
                    m = m.push(u);
                    watch_step(s0, c0, m0, c, u, s);
                    assert(cs@ =~= c0.push(c));
                    assert forall|q: u64| #[trigger] s.has(q) implies s.version(q) <= 1 + k + 1 by { if s0.has(q) { assert(s.version(q) == s0.version(q)); } }
                    assert forall|i: int| 0 <= i < m.len() implies exists|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == (#[trigger] m[i]).path by {
                        if i < m0.len() { assert(m[i] == m0[i]); } else { assert(path_of(ops@[k as int]) == m[i].path); }
                    }
                }
            }
            Op::Poll(i, wk) => {
                let i = *i;
                if i < cs.len() {
                    assert(agree1(s, cs@[i as int], m[i as int]));
                    proof {
                        reveal(agree1);
                        let c = cs@[i as int];
                        let n = c.slots@.len();
                        assert(c.keys().len() == n);
                        assert(n < LIMIT);
                        sum_small(s, c, k as int, n as int);
                        assert(n * (1 + k) <= 0x8000_0000 * 0x8000_0000) by (nonlinear_arith) requires n < 0x8000_0000, k < 0x8000_0000, n >= 0, k >= 0;
                    }
                    let mut cx = Context::from_waker(wk);
                    let mut c = cs.remove(i);
                    let r = c.poll_next(&mut cx, &mut s);
                    // ready exactly when an affecting change came since the last poll, and never on the first
                    assert(r == (if m[i as int].polled && m[i as int].changed { Poll::Ready(Some(())) } else { Poll::Pending }));
                    cs.insert(i, c);
                    proof {
                        m = m.update(i as int, Sub { task: wk.task(), polled: true, changed: false, ..m0[i as int] });
                        assert(cs@ =~= c0.update(i as int, c));
                        same_shape(s0, s);
                        poll_step(s0, c0, m0, i as int, c, wk.task(), s);
                        assert forall|q: u64| #[trigger] s.has(q) implies s.version(q) <= 1 + k + 1 by { assert(s0.has(q)); }
                        assert forall|a: int| 0 <= a < m.len() implies exists|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == (#[trigger] m[a]).path by { assert(m[a].path == m0[a].path); }
                    }
                }
            }
            Op::Stop(i) => {
                let i = *i;
                if i < cs.len() {
                    assert(agree1(s, cs@[i as int], m[i as int]));
                    assert(cs@[i as int].on(s)) by { reveal(agree1); }
                    let mut c = cs.remove(i);
                    c.drop(&mut s);
                    proof {
                        m = m.remove(i as int);
                        stop_step(s0, c0, m0, i as int, s);
                        assert(cs@ =~= c0.remove(i as int));
                        assert forall|q: u64| #[trigger] s.has(q) implies s.version(q) <= 1 + k + 1 by { assert(s0.has(q)); }
                        assert forall|a: int| 0 <= a < m.len() implies exists|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == (#[trigger] m[a]).path by {
                            assert(m[a] == m0[if a < i { a } else { a + 1 }]);
                        }
                    }
                }
            }
            Op::Change(p) => {
                let ghost l0 = w.log@;
                let ghost q = p.segs();
                proof {
                    assert(names(op));
                    assert(path_of(op) == q);
                    assert forall|i: int| 0 <= i < m.len() implies apart((#[trigger] m[i]).path, q) by {
                        let j = choose|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == m[i].path;
                        assert(apart(path_of(ops@[j]), path_of(ops@[k as int])));
                    }
                    assert(apart(path_of(ops@[k as int]), path_of(ops@[k as int])));
                    assert(room(s, q.len() as int + 1));
                }
                notify(&mut s, p, w);
                proof {
                    change_step(s0, s, c0, m0, q);
                    let ws = wslots(s0, hits(q));
                    // the wakes are those of the affected streams, each through one of its slots
                    assert(w.log@ == l0 + wakes(ws.map_values(|x: int| s0.task(x))) && woken_right(s0, c0, m0, q, ws));
                    m = m.map_values(|u: Sub| Sub { changed: u.changed || affected(u.path, u.bub, q), ..u });
                    assert forall|x: u64| #[trigger] s.has(x) implies s.version(x) <= 1 + k + 1 by {
                        assert(s0.has(x));
                        hits_distinct(q);
                        count_has(hits(q), x);
                        assert(s.version(x) == s0.version(x) + count(hits(q), x));
                    }
                    assert forall|a: int| 0 <= a < m.len() implies exists|j: int| 0 <= j < ops@.len() && names(#[trigger] ops@[j]) && path_of(ops@[j]) == (#[trigger] m[a]).path by { assert(m[a].path == m0[a].path); }
                }
            }
        }
        k = k + 1;
    }
}
proof fn poll_step(s0: StoreWakers, c0: Seq<UntilChange>, m0: Seq<Sub>, i: int, c: UntilChange, t: int, s: StoreWakers)
    requires
        agree(s0, c0, m0), 0 <= i < c0.len(),
        c.slots == c0[i].slots, c.last_version == c0[i].sum(s0), c.on(s),
        s.map@ == s0.map@, s.all_wakers.lists() == s0.all_wakers.lists(),
        forall|x: int| c.own().contains(x) ==> #[trigger] s.task(x) == t,
        forall|q: u64, x: int| #[trigger] s0.under(q, x) && !c.own().contains(x) ==> s.task(x) == s0.task(x),
    ensures
        agree(s, c0.update(i, c), m0.update(i, Sub { task: t, polled: true, changed: false, ..m0[i] })),
{
    let cs = c0.update(i, c);
    let m = m0.update(i, Sub { task: t, polled: true, changed: false, ..m0[i] });
    same_shape(s0, s);
    assert forall|j: int| 0 <= j < cs.len() implies agree1(s, #[trigger] cs[j], m[j]) by {
        assert(agree1(s0, c0[j], m0[j]));
        assert(c0[j].on(s0)) by { reveal(agree1); }
        keep_sum(s0, s, c0[j]);
        c0[j].on_facts(s0);
        assert forall|x: int| cs[j].own().contains(x) implies #[trigger] s.task(x) == m[j].task by {
            if j != i {
                own_under(s0, c0[j], x);
                apart_slots(c0, j, i, x);
                assert(s0.task(x) == m0[j].task) by { reveal(agree1); }
            }
        }
        reveal(agree1);
        if j != i {
            assert forall|a: int| 0 <= a < c0[j].slots@.len() implies s.under((#[trigger] c0[j].slots@[a]).0.0, c0[j].slots@[a].1.0 as int) by {
                assert(s0.under(c0[j].slots@[a].0.0, c0[j].slots@[a].1.0 as int));
            }
        } else {
            assert(c.sum(s) == c0[i].sum(s));
        }
    }
    assert(owned(s, cs)) by {
        reveal(owned);
        assert forall|q: u64, x: int| #[trigger] s.under(q, x) implies exists|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).own().contains(x) by {
            assert(s0.under(q, x));
            let j = owner(s0, c0, q, x);
            assert(cs[j].own() == c0[j].own());
        }
    }
    assert(disj(cs)) by {
        reveal(disj);
        assert forall|a: int, b: int, x: int| 0 <= a < cs.len() && 0 <= b < cs.len() && a != b && #[trigger] cs[a].own().contains(x) implies !#[trigger] cs[b].own().contains(x) by {
            assert(cs[a].own() == c0[a].own() && cs[b].own() == c0[b].own());
            apart_slots(c0, a, b, x);
        }
    }
}
proof fn watch_step(s0: StoreWakers, c0: Seq<UntilChange>, m0: Seq<Sub>, c: UntilChange, u: Sub, s: StoreWakers)
    requires
        agree(s0, c0, m0), added(s0, c.keys(), c.own(), s), c.on(s), c.last_version == 0,
        c.keys() == skeys(u.path, u.bub), u.path.len() >= 1, u.task == no_task(), !u.polled,
    ensures
        agree(s, c0.push(c), m0.push(u)),
{
    let cs = c0.push(c);
    let m = m0.push(u);
    assert forall|i: int| 0 <= i < cs.len() implies agree1(s, #[trigger] cs[i], m[i]) by {
        if i < c0.len() {
            assert(agree1(s0, c0[i], m0[i]));
            watch_one(s0, c.keys(), c.own(), c0[i], m0[i], s);
        } else {
            reveal(agree1);
            assert forall|x: int| c.own().contains(x) implies #[trigger] s.task(x) == no_task() by {
                let j = c.own().index_of(x);
                assert(c.own()[j] == x);
                assert(s.under(c.keys()[j], c.own()[j]));
            }
            c.on_facts(s);
        }
    }
    assert(owned(s, cs)) by {
        reveal(owned);
        assert forall|q: u64, x: int| #[trigger] s.under(q, x) implies exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).own().contains(x) by {
            if s0.under(q, x) {
                let i = owner(s0, c0, q, x);
                assert(cs[i].own().contains(x));
            } else {
                assert(cs[c0.len() as int].own().contains(x));
            }
        }
    }
    assert(disj(cs)) by {
        reveal(disj);
        assert forall|i: int, j: int, x: int| 0 <= i < cs.len() && 0 <= j < cs.len() && i != j && #[trigger] cs[i].own().contains(x) implies !#[trigger] cs[j].own().contains(x) by {
            if i < c0.len() && j < c0.len() {
                apart_slots(c0, i, j, x);
            } else {
                let a = if i < c0.len() { i } else { j };
                if c0[a].own().contains(x) {
                    assert(agree1(s0, c0[a], m0[a]));
                    assert(c0[a].on(s0)) by { reveal(agree1); }
                    own_under(s0, c0[a], x);
                    assert(!c.own().contains(x));
                }
            }
        }
    }
}
proof fn watch_one(s0: StoreWakers, ks: Seq<u64>, ss: Seq<int>, c: UntilChange, u: Sub, s: StoreWakers)
    requires agree1(s0, c, u), added(s0, ks, ss, s),
    ensures agree1(s, c, u),
{
    reveal(agree1);
    keep_sum(s0, s, c);
    c.on_facts(s0);
    assert forall|x: int| c.own().contains(x) implies #[trigger] s.task(x) == u.task by { own_under(s0, c, x); }
    assert forall|j: int| 0 <= j < c.slots@.len() implies s.under((#[trigger] c.slots@[j]).0.0, c.slots@[j].1.0 as int) by {
        assert(s0.under(c.slots@[j].0.0, c.slots@[j].1.0 as int));
    }
}
proof fn stop_one(s0: StoreWakers, d: UntilChange, c: UntilChange, u: Sub, s: StoreWakers)
    requires
        agree1(s0, c, u), removed(s0, d.keys(), d.own(), s),
        forall|x: int| c.own().contains(x) ==> !d.own().contains(x),
    ensures agree1(s, c, u),
{
    reveal(agree1);
    assert forall|a: int| 0 <= a < c.slots@.len() implies s.under((#[trigger] c.slots@[a]).0.0, c.slots@[a].1.0 as int) && s.version(c.slots@[a].0.0) == s0.version(c.slots@[a].0.0) && s.task(c.slots@[a].1.0 as int) == u.task by {
        let x = c.slots@[a].1.0 as int;
        assert(s0.under(c.slots@[a].0.0, x));
        assert(c.own()[a] == x);
        assert(c.own().contains(x));
        assert(s.under(c.slots@[a].0.0, x));
    }
    vsum_ext(s0, s, c.slots@, c.slots@.len() as int);
    assert forall|x: int| c.own().contains(x) implies #[trigger] s.task(x) == u.task by {
        let a = c.own().index_of(x);
        assert(c.own()[a] == x);
        assert(c.own()[a] == c.slots@[a].1.0);
    }
}
proof fn stop_step(s0: StoreWakers, c0: Seq<UntilChange>, m0: Seq<Sub>, i: int, s: StoreWakers)
    requires agree(s0, c0, m0), 0 <= i < c0.len(), removed(s0, c0[i].keys(), c0[i].own(), s),
    ensures agree(s, c0.remove(i), m0.remove(i)),
{
    let cs = c0.remove(i);
    let m = m0.remove(i);
    assert forall|j: int| 0 <= j < cs.len() implies agree1(s, #[trigger] cs[j], m[j]) by {
        let o = if j < i { j } else { j + 1 };
        let c = c0[o];
        assert(cs[j] == c && m[j] == m0[o]);
        assert(agree1(s0, c, m0[o]));
        assert forall|x: int| c.own().contains(x) implies !c0[i].own().contains(x) by { apart_slots(c0, o, i, x); }
        stop_one(s0, c0[i], c, m0[o], s);
    }
    assert(owned(s, cs)) by {
        reveal(owned);
        assert forall|q: u64, x: int| #[trigger] s.under(q, x) implies exists|j: int| 0 <= j < cs.len() && (#[trigger] cs[j]).own().contains(x) by {
            assert(s0.under(q, x));
            let o = owner(s0, c0, q, x);
            assert(o != i);
            let j = if o < i { o } else { o - 1 };
            assert(cs[j] == c0[o]);
        }
    }
    assert(disj(cs)) by {
        reveal(disj);
        assert forall|a: int, b: int, x: int| 0 <= a < cs.len() && 0 <= b < cs.len() && a != b && #[trigger] cs[a].own().contains(x) implies !#[trigger] cs[b].own().contains(x) by {
            apart_slots(c0, if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 }, x);
        }
    }
}
} // verus!
fn main() {}
