verus! {
/// o is T, then the keys S, which are in the order they have in P
pub open spec fn half<K>(o: Seq<K>, T: Seq<K>, P: Seq<K>, S: Set<K>) -> bool {
    &&& o.no_duplicates() && T.no_duplicates()
    &&& forall|k: K| #[trigger] o.contains(k) <==> T.contains(k) || S.contains(k)
    &&& forall|k: K| !(#[trigger] T.contains(k) && #[trigger] S.contains(k))
    &&& forall|x: K, y: K| #[trigger] bef(o, x, y) <==> bef(T, x, y) || T.contains(x) && S.contains(y) || S.contains(x) && S.contains(y) && bef(P, x, y)
}
proof fn half_push<K>(T: Seq<K>, k: K)
    requires T.no_duplicates(), !T.contains(k),
    ensures T.push(k) == place(T, k, None), T.push(k).no_duplicates(),
        forall|x: K| #[trigger] T.push(k).contains(x) <==> T.contains(x) || x == k,
        forall|x: K, y: K| #[trigger] bef(T.push(k), x, y) <==> bef(T, x, y) || T.contains(x) && y == k,
{ place_rank(T, k, None); }
/// the key goes after T, and S begins with b
proof fn half_put<K>(o: Seq<K>, T: Seq<K>, P: Seq<K>, S: Set<K>, k: K, b: Option<K>)
    requires
        half(o, T, P, S), !T.contains(k),
        b is None ==> forall|y: K| #[trigger] S.contains(y) ==> y == k,
        b is Some ==> S.contains(b.unwrap()) && b.unwrap() != k && forall|y: K| #[trigger] S.contains(y) && y != k && y != b.unwrap() ==> bef(P, b.unwrap(), y),
        P.no_duplicates(),
    ensures half(o_put(o, k, b), T.push(k), P, S.remove(k)),
{
    half_push(T, k);
    cut_rank(o, k);
    if let Some(x) = b { assert(o.contains(x)); assert(cut(o, k).contains(x)); }
    place_rank(cut(o, k), k, there(o, b));
    let r = o_put(o, k, b);
    let S1 = S.remove(k);
    let c = cut(o, k);
    assert forall|x: K, y: K| #[trigger] bef(r, x, y) <==> bef(T.push(k), x, y) || T.push(k).contains(x) && S1.contains(y) || S1.contains(x) && S1.contains(y) && bef(P, x, y) by {
        assert(bef(c, x, y) <==> bef(o, x, y) && x != k && y != k);
        assert(c.contains(x) <==> o.contains(x) && x != k);
        assert(c.contains(y) <==> o.contains(y) && y != k);
        if let Some(z) = b {
            assert(bef(c, z, y) <==> bef(o, z, y) && y != k);
            assert(bef(c, x, z) <==> bef(o, x, z) && x != k);
            assert(!T.contains(z));
        }
    }
}
/// the key is the first of S: it stays
proof fn half_stay<K>(o: Seq<K>, T: Seq<K>, P: Seq<K>, S: Set<K>, k: K)
    requires half(o, T, P, S), S.contains(k), forall|y: K| #[trigger] S.contains(y) && y != k ==> bef(P, k, y),
    ensures half(o, T.push(k), P, S.remove(k)),
{
    assert(!T.contains(k));
    half_push(T, k);
    let S1 = S.remove(k);
    assert forall|x: K, y: K| #[trigger] bef(o, x, y) <==> bef(T.push(k), x, y) || T.push(k).contains(x) && S1.contains(y) || S1.contains(x) && S1.contains(y) && bef(P, x, y) by {
        assert(S1.contains(x) == (S.contains(x) && x != k)); assert(S1.contains(y) == (S.contains(y) && y != k));
        if y == k && S.contains(x) && x != k { assert(bef(P, k, x)); }
    }
}
proof fn half_drop<K>(o: Seq<K>, T: Seq<K>, P: Seq<K>, S: Set<K>, k: K)
    requires half(o, T, P, S), S.contains(k),
    ensures half(cut(o, k), T, P, S.remove(k)),
{
    cut_rank(o, k);
    assert(!T.contains(k));
    assert forall|x: K, y: K| #[trigger] bef(cut(o, k), x, y) <==> bef(T, x, y) || T.contains(x) && S.remove(k).contains(y) || S.remove(k).contains(x) && S.remove(k).contains(y) && bef(P, x, y) by { assert(bef(cut(o, k), x, y) <==> bef(o, x, y) && x != k && y != k); }
}
proof fn half_done<K>(o: Seq<K>, T: Seq<K>, P: Seq<K>, S: Set<K>)
    requires half(o, T, P, S), forall|k: K| !#[trigger] S.contains(k),
    ensures o == T,
{
    assert forall|x: K, y: K| #[trigger] bef(o, x, y) implies bef(T, x, y) by {}
    same_rank(o, T);
}
proof fn half_start<K>(o: Seq<K>, S: Set<K>)
    requires o.no_duplicates(), forall|k: K| #[trigger] S.contains(k) <==> o.contains(k),
    ensures half(o, Seq::<K>::empty(), o, S),
{}
proof fn taken<K>(N: Seq<K>, i: int)
    requires N.no_duplicates(), 0 <= i < N.len(),
    ensures N.take(i).no_duplicates(), !N.take(i).contains(N[i]),
{}
} // verus!
