verus! {
/// the calls since the first n were for k
pub open spec fn asked<K, F>(calls: Seq<(K, F)>, n: int, k: K) -> bool { exists|i: int| n <= i < calls.len() && (#[trigger] calls[i]).0 == k }
proof fn asked_none<K, F>(calls: Seq<(K, F)>)
    ensures forall|k: K| !#[trigger] asked(calls, calls.len() as int, k), calls.take(calls.len() as int) == calls,
{ assert(calls.take(calls.len() as int) =~= calls); }
proof fn asked_more<K, F>(calls: Seq<(K, F)>, n: int, x: (K, F))
    requires 0 <= n <= calls.len(),
    ensures
        forall|k: K| #[trigger] asked(calls.push(x), n, k) <==> asked(calls, n, k) || x.0 == k,
        calls.push(x).take(n) == calls.take(n),
{
    let c1 = calls.push(x);
    assert(c1.take(n) =~= calls.take(n));
    assert forall|k: K| #[trigger] asked(c1, n, k) <==> asked(calls, n, k) || x.0 == k by {
        if asked(c1, n, k) { let i = choose|i: int| n <= i < c1.len() && (#[trigger] c1[i]).0 == k; if i < calls.len() { assert(calls[i].0 == k); } }
        if asked(calls, n, k) { let i = choose|i: int| n <= i < calls.len() && (#[trigger] calls[i]).0 == k; assert(c1[i].0 == k); }
        if x.0 == k { assert(c1[calls.len() as int] == x); }
    }
}
/// the calls since the first n made the futures of T that are not of P, each by one call
spec fn made<K, F>(calls: Seq<(K, F)>, n: int, T: Seq<K>, P: Seq<K>, m: Items<K, F>) -> bool {
    &&& forall|k: K| #[trigger] asked(calls, n, k) <==> T.contains(k) && !P.contains(k)
    &&& forall|i: int, j: int| n <= i < j < calls.len() ==> (#[trigger] calls[i]).0 != (#[trigger] calls[j]).0
    &&& forall|i: int| n <= i < calls.len() ==> m.dom().contains((#[trigger] calls[i]).0) && m[calls[i].0].task.fut() == calls[i].1
}
/// m1 has the entries of m0 that are left
spec fn same_tasks<K, F>(m0: Items<K, F>, m1: Items<K, F>) -> bool {
    forall|k: K| m0.dom().contains(k) && #[trigger] m1.dom().contains(k) ==> m1[k] == m0[k]
}
proof fn made_kept<K, F>(calls: Seq<(K, F)>, n: int, T: Seq<K>, P: Seq<K>, m: Items<K, F>, k: K, m1: Items<K, F>)
    requires made(calls, n, T, P, m), T.no_duplicates(), P.contains(k), !T.contains(k), m1 == m,
    ensures made(calls, n, T.push(k), P, m1),
{ half_push(T, k); }
proof fn made_dropped<K, F>(calls: Seq<(K, F)>, n: int, T: Seq<K>, P: Seq<K>, m: Items<K, F>, k: K)
    requires made(calls, n, T, P, m), P.contains(k), 0 <= n,
    ensures made(calls, n, T, P, m.remove(k)),
{
    assert forall|i: int| n <= i < calls.len() implies m.remove(k).dom().contains((#[trigger] calls[i]).0) && m.remove(k)[calls[i].0].task.fut() == calls[i].1 by { assert(asked(calls, n, calls[i].0)); }
}
proof fn made_more<K, F>(calls: Seq<(K, F)>, n: int, T: Seq<K>, P: Seq<K>, m: Items<K, F>, k: K, f: F, v: Stored<F>)
    requires made(calls, n, T, P, m), T.no_duplicates(), !P.contains(k), !T.contains(k), v.task.fut() == f, 0 <= n <= calls.len(),
    ensures made(calls.push((k, f)), n, T.push(k), P, m.insert(k, v)),
{
    half_push(T, k);
    asked_more(calls, n, (k, f));
    let c1 = calls.push((k, f));
    let m1 = m.insert(k, v);
    assert forall|i: int, j: int| n <= i < j < c1.len() implies (#[trigger] c1[i]).0 != (#[trigger] c1[j]).0 by { assert(c1[i] == calls[i]); assert(asked(calls, n, calls[i].0)); if j < calls.len() { assert(c1[j] == calls[j]); } }
    assert forall|i: int| n <= i < c1.len() implies m1.dom().contains((#[trigger] c1[i]).0) && m1[c1[i].0].task.fut() == c1[i].1 by { if i < calls.len() { assert(c1[i] == calls[i]); assert(asked(calls, n, calls[i].0)); } }
}
} // verus!
