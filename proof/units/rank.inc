verus! {
// ======== sequences without duplicates as linear orders ========
pub open spec fn idx<T>(s: Seq<T>, x: T) -> int { s.index_of(x) }
/// a comes before b
pub open spec fn bef<T>(s: Seq<T>, a: T, b: T) -> bool { s.contains(a) && s.contains(b) && idx(s, a) < idx(s, b) }
pub proof fn idx_at<T>(s: Seq<T>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures idx(s, s[i]) == i, s.contains(s[i]),
{}
pub proof fn at_idx<T>(s: Seq<T>, x: T)
    requires s.contains(x),
    ensures 0 <= idx(s, x) < s.len(), s[idx(s, x)] == x,
{}
pub open spec fn cut<T>(s: Seq<T>, x: T) -> Seq<T> { if s.contains(x) { s.remove(s.index_of(x)) } else { s } }
pub open spec fn place<T>(s: Seq<T>, x: T, before: Option<T>) -> Seq<T> {
    match before { Some(b) => s.insert(s.index_of(b), x), None => s.push(x) }
}
// ---- putting a key before another, or at the end
pub open spec fn o_put<K>(o: Seq<K>, k: K, b: Option<K>) -> Seq<K> {
    if b == Some(k) && o.contains(k) { o } else { place(cut(o, k), k, there(o, b)) }
}
/// the key to go before, if there is such
pub open spec fn there<K>(o: Seq<K>, b: Option<K>) -> Option<K> {
    match b { Some(x) => if o.contains(x) { b } else { None }, None => None }
}
pub proof fn cut_rank<T>(s: Seq<T>, n: T)
    requires s.no_duplicates(),
    ensures
        cut(s, n).no_duplicates(),
        forall|x: T| #[trigger] cut(s, n).contains(x) <==> s.contains(x) && x != n,
        forall|x: T, y: T| #[trigger] bef(cut(s, n), x, y) <==> bef(s, x, y) && x != n && y != n,
        s.contains(n) ==> cut(s, n).len() == s.len() - 1,
        !s.contains(n) ==> cut(s, n) == s,
{
    let r = cut(s, n);
    if s.contains(n) {
        let p = s.index_of(n);
        assert(s[p] == n);
        assert(r.no_duplicates());
        assert forall|x: T| #[trigger] r.contains(x) implies s.contains(x) && x != n && idx(s, x) == (if idx(r, x) < p { idx(r, x) } else { idx(r, x) + 1 }) by {
            let i = r.index_of(x);
            assert(r[i] == x);
            if i < p { assert(s[i] == x); idx_at(s, i); } else { assert(s[i + 1] == x); idx_at(s, i + 1); }
        }
        assert forall|x: T| s.contains(x) && x != n implies #[trigger] r.contains(x) by {
            let i = s.index_of(x);
            if i < p { assert(r[i] == x); } else { assert(r[i - 1] == x); }
        }
        assert forall|x: T, y: T| #[trigger] bef(r, x, y) == (bef(s, x, y) && x != n && y != n) by {
            assert(r.contains(x) == (s.contains(x) && x != n));
            assert(r.contains(y) == (s.contains(y) && y != n));
        }
    }
}
/// x is before the place `before` (at the end: everything is)
pub open spec fn left<T>(s: Seq<T>, x: T, before: Option<T>) -> bool {
    match before { Some(b) => bef(s, x, b), None => s.contains(x) }
}
pub open spec fn right<T>(s: Seq<T>, x: T, before: Option<T>) -> bool {
    match before { Some(b) => x == b || bef(s, b, x), None => false }
}
pub proof fn place_rank<T>(s: Seq<T>, n: T, a: Option<T>)
    requires s.no_duplicates(), !s.contains(n), a is Some ==> s.contains(a.unwrap()),
    ensures
        place(s, n, a).no_duplicates(),
        place(s, n, a).len() == s.len() + 1,
        forall|x: T| #[trigger] place(s, n, a).contains(x) <==> s.contains(x) || x == n,
        forall|x: T, y: T| #[trigger] bef(place(s, n, a), x, y) <==> (if x == n { y != n && s.contains(y) && right(s, y, a) } else if y == n { left(s, x, a) } else { bef(s, x, y) }),
{
    let r = place(s, n, a);
    let q = match a { Some(b) => s.index_of(b), None => s.len() as int };
    assert(r =~= s.insert(q, n));
    assert(r[q] == n);
    assert(r.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
            let f = |i: int| if i < q { i } else { i - 1 };
            if i != q { assert(r[i] == s[f(i)]); }
            if j != q { assert(r[j] == s[f(j)]); }
        }
    }
    idx_at(r, q);
    assert forall|x: T| s.contains(x) implies #[trigger] r.contains(x) && idx(r, x) == (if idx(s, x) < q { idx(s, x) } else { idx(s, x) + 1 }) by {
        let i = s.index_of(x);
        if i < q { assert(r[i] == x); idx_at(r, i); } else { assert(r[i + 1] == x); idx_at(r, i + 1); }
    }
    assert forall|x: T| #[trigger] r.contains(x) implies s.contains(x) || x == n by {
        let i = r.index_of(x);
        if i < q { assert(s[i] == x); } else if i > q { assert(s[i - 1] == x); }
    }
    assert forall|x: T| s.contains(x) && #[trigger] idx(s, x) == q implies a == Some(x) by { if a is Some { assert(s[idx(s, x)] == x); assert(s[q] == a.unwrap()); } }
    assert forall|x: T, y: T| #[trigger] bef(r, x, y) == (if x == n { y != n && s.contains(y) && right(s, y, a) } else if y == n { left(s, x, a) } else { bef(s, x, y) }) by {
        assert(r.contains(x) == (s.contains(x) || x == n));
        assert(r.contains(y) == (s.contains(y) || y == n));
        assert(idx(r, n) == q);
    }
}
/// two sequences with the same order are the same
pub proof fn same_rank<T>(s: Seq<T>, t: Seq<T>)
    requires
        s.no_duplicates(), t.no_duplicates(),
        forall|x: T| #[trigger] s.contains(x) <==> t.contains(x),
        forall|x: T, y: T| #[trigger] bef(s, x, y) ==> bef(t, x, y),
    ensures s == t,
    decreases s.len(),
{
    if s.len() > 0 {
        let l = s.last();
        idx_at(s, s.len() - 1);
        assert(t.contains(l));
        let p = t.index_of(l);
        if p + 1 < t.len() {
            let y = t.last();
            idx_at(t, t.len() - 1);
            assert(s.contains(y));
            assert(y != l);
            assert(bef(s, y, l)) by { let i = s.index_of(y); assert(s[i] == y); }
            assert(bef(t, y, l));
            assert(false);
        }
        let (sd, td) = (s.drop_last(), t.drop_last());
        assert(t.last() == l);
        assert(sd =~= cut(s, l)) by { assert(cut(s, l) == s.remove(s.len() - 1)); }
        assert(td =~= cut(t, l)) by { assert(cut(t, l) == t.remove(t.len() - 1)); }
        cut_rank(s, l);
        cut_rank(t, l);
        same_rank(sd, td);
        assert(s =~= sd.push(l));
        assert(t =~= td.push(l));
    } else if t.len() > 0 { assert(t.contains(t[0])); assert(s.contains(t[0])); }
}
pub proof fn total<T>(s: Seq<T>, a: T, b: T)
    requires s.contains(a), s.contains(b), a != b,
    ensures bef(s, a, b) || bef(s, b, a), !(bef(s, a, b) && bef(s, b, a)),
{ at_idx(s, a); at_idx(s, b); }
pub proof fn none_in<K>(s: Seq<K>)
    requires s.len() == 0,
    ensures forall|k: K| !#[trigger] s.contains(k),
{}
pub proof fn cut_first<K>(s: Seq<K>)
    requires s.no_duplicates(), s.len() > 0,
    ensures s.drop_first() == cut(s, s[0]),
{ idx_at(s, 0); assert(s.drop_first() =~= s.remove(0)); }
} // verus!
