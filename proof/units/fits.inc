verus! {
#[verifier::opaque]
pub open spec fn seen(b: bool) -> bool { true }
/// puts a term before the solver
pub proof fn look(b: bool)
    ensures seen(b),
{ reveal(seen); }
// ======== a sequence of keys shown as blocks between markers ========
/// one item: its future, and the nodes around what it renders
pub struct Block { pub st: int, pub en: int }
pub type Blocks<K> = Map<K, Block>;
pub open spec fn st<K>(m: Blocks<K>, k: K) -> int { m[k].st }
pub open spec fn en<K>(m: Blocks<K>, k: K) -> int { m[k].en }
/// among the nodes s, between S and E, the blocks m are in the order o
pub open spec fn fits<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>) -> bool {
    &&& s.no_duplicates() && o.no_duplicates()
    &&& bef(s, S, E)
    &&& forall|k: K| #[trigger] o.contains(k) <==> m.dom().contains(k)
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> bef(s, S, st(m, k)) && bef(s, st(m, k), en(m, k)) && bef(s, en(m, k), E)
    &&& forall|k: K, l: K| #[trigger] bef(o, k, l) ==> bef(s, en(m, k), st(m, l))
}
pub proof fn fits_unique<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o1: Seq<K>, o2: Seq<K>)
    requires fits(m, s, S, E, o1), fits(m, s, S, E, o2),
    ensures o1 == o2,
{
    assert forall|x: K| #[trigger] o1.contains(x) <==> o2.contains(x) by { assert(o1.contains(x) == m.dom().contains(x)); assert(o2.contains(x) == m.dom().contains(x)); }
    assert forall|x: K, y: K| #[trigger] bef(o1, x, y) implies bef(o2, x, y) by {
        total(o2, x, y);
        if bef(o2, y, x) {
            assert(m.dom().contains(x) && m.dom().contains(y)) by { assert(o1.contains(x) && o1.contains(y)); }
        }
    }
    same_rank(o1, o2);
}
/// x is in the block of k
pub open spec fn within<K>(m: Blocks<K>, s: Seq<int>, k: K, x: int) -> bool { bef(s, st(m, k), x) && bef(s, x, en(m, k)) }
pub open spec fn inside(s: Seq<int>, S: int, E: int, x: int) -> bool { bef(s, S, x) && bef(s, x, E) }
/// what is not between S and E stays
pub open spec fn around(s0: Seq<int>, s1: Seq<int>, S: int, E: int) -> bool {
    &&& forall|x: int| #![trigger s1.contains(x)] #![trigger inside(s1, S, E, x)] (s1.contains(x) && !inside(s1, S, E, x)) <==> (s0.contains(x) && !inside(s0, S, E, x))
    &&& forall|x: int, y: int| s0.contains(x) && !inside(s0, S, E, x) && s0.contains(y) && !inside(s0, S, E, y) ==> #[trigger] bef(s1, x, y) == bef(s0, x, y)
}
/// every block that is kept has in it what it had
pub open spec fn kept<K>(m0: Blocks<K>, s0: Seq<int>, m1: Blocks<K>, s1: Seq<int>) -> bool {
    &&& forall|k: K, x: int| m0.dom().contains(k) && m1.dom().contains(k) && m0[k] == m1[k] ==> #[trigger] within(m1, s1, k, x) == within(m0, s0, k, x)
    &&& forall|k: K, x: int, y: int| m0.dom().contains(k) && m1.dom().contains(k) && m0[k] == m1[k] && #[trigger] within(m1, s1, k, x) && #[trigger] within(m1, s1, k, y) ==> bef(s1, x, y) == bef(s0, x, y)
}
pub open spec fn framed<K>(m0: Blocks<K>, s0: Seq<int>, m1: Blocks<K>, s1: Seq<int>, S: int, E: int) -> bool {
    &&& around(s0, s1, S, E)
    &&& kept(m0, s0, m1, s1)
}
/// blocks do not overlap
pub proof fn apart<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, l: K)
    requires fits(m, s, S, E, o), m.dom().contains(k), m.dom().contains(l), k != l,
    ensures bef(o, k, l) && bef(s, en(m, k), st(m, l)) || bef(o, l, k) && bef(s, en(m, l), st(m, k)),
{ assert(o.contains(k) && o.contains(l)); total(o, k, l); }
// ---- adding and removing a block
pub open spec fn spot<K>(m: Blocks<K>, E: int, b: Option<K>) -> int {
    match b { Some(x) => if m.dom().contains(x) { st(m, x) } else { E }, None => E }
}
pub open spec fn with_markers(s: Seq<int>, a: int, v: Block) -> Seq<int> { place(place(s, v.en, Some(a)), v.st, Some(v.en)) }
pub open spec fn without_markers(s: Seq<int>, v: Block) -> Seq<int> { cut(cut(s, v.st), v.en) }
pub proof fn put_new<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, v: Block, b: Option<K>)
    requires fits(m, s, S, E, o), !m.dom().contains(k), !s.contains(v.st), !s.contains(v.en), v.st != v.en,
    ensures
        fits(m.insert(k, v), with_markers(s, spot(m, E, b), v), S, E, o_put(o, k, b)),
        framed(m, s, m.insert(k, v), with_markers(s, spot(m, E, b), v), S, E),
        forall|x: int| !#[trigger] within(m.insert(k, v), with_markers(s, spot(m, E, b), v), k, x),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let a = spot(m, E, b);
    let s1 = place(s, v.en, Some(a));
    let s2 = place(s1, v.st, Some(v.en));
    let n = m.insert(k, v);
    let o1 = o_put(o, k, b);
    assert(o.contains(k) == m.dom().contains(k));
    if let Some(x) = b { assert(o.contains(x) == m.dom().contains(x)); }
    place_rank(s, v.en, Some(a));
    place_rank(s1, v.st, Some(v.en));
    cut_rank(o, k);
    place_rank(o, k, there(o, b));
    assert forall|j: K| #[trigger] n.dom().contains(j) implies bef(s2, S, st(n, j)) && bef(s2, st(n, j), en(n, j)) && bef(s2, en(n, j), E) by {
        if j != k { assert(m.dom().contains(j)); }
    }
    assert forall|i: K, j: K| #[trigger] bef(o1, i, j) implies bef(s2, en(n, i), st(n, j)) by {
        if i != k { assert(o.contains(i)); assert(m.dom().contains(i)); }
        if j != k { assert(o.contains(j)); assert(m.dom().contains(j)); }
    }
    assert forall|j: K| #[trigger] o1.contains(j) <==> n.dom().contains(j) by { assert(o1.contains(j) == (o.contains(j) || j == k)); }
    assert forall|x: int, y: int| s.contains(x) && s.contains(y) implies #[trigger] bef(s2, x, y) == bef(s, x, y) by {}
    assert forall|j: K, x: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] implies #[trigger] within(n, s2, j, x) == within(m, s, j, x) by {
        if let Some(y) = b { if m.dom().contains(y) && y != j { apart(m, s, S, E, o, j, y); } }
    }
    assert forall|j: K, x: int, y: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] && #[trigger] within(n, s2, j, x) && #[trigger] within(n, s2, j, y) implies bef(s2, x, y) == bef(s, x, y) by {
        assert(within(m, s, j, x) && within(m, s, j, y));
    }
}
pub proof fn take_out<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K)
    requires fits(m, s, S, E, o), m.dom().contains(k),
    ensures
        fits(m.remove(k), without_markers(s, m[k]), S, E, cut(o, k)),
        framed(m, s, m.remove(k), without_markers(s, m[k]), S, E),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let v = m[k];
    let s1 = cut(s, v.st);
    let s2 = cut(s1, v.en);
    let n = m.remove(k);
    let o1 = cut(o, k);
    cut_rank(s, v.st);
    cut_rank(s1, v.en);
    cut_rank(o, k);
    assert forall|j: K| #[trigger] n.dom().contains(j) implies bef(s2, S, st(n, j)) && bef(s2, st(n, j), en(n, j)) && bef(s2, en(n, j), E) by {
        assert(m.dom().contains(j)); apart(m, s, S, E, o, j, k);
    }
    assert forall|i: K, j: K| #[trigger] bef(o1, i, j) implies bef(s2, en(n, i), st(n, j)) by {
        assert(o.contains(i) && o.contains(j)); assert(m.dom().contains(i) && m.dom().contains(j));
        apart(m, s, S, E, o, i, k); apart(m, s, S, E, o, j, k);
    }
    assert forall|j: K| #[trigger] o1.contains(j) <==> n.dom().contains(j) by { assert(o1.contains(j) == (o.contains(j) && j != k)); }
    assert(m.dom().contains(k));
    assert forall|j: K, x: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] implies #[trigger] within(n, s2, j, x) == within(m, s, j, x) by {
        apart(m, s, S, E, o, j, k);
    }
    assert forall|j: K, x: int, y: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] && #[trigger] within(n, s2, j, x) && #[trigger] within(n, s2, j, y) implies bef(s2, x, y) == bef(s, x, y) by {
        assert(within(m, s, j, x) && within(m, s, j, y));
        apart(m, s, S, E, o, j, k);
    }
}
pub proof fn commute(s: Seq<int>, a: int, v: Block, d: Block)
    requires s.no_duplicates(), s.contains(a), !s.contains(v.st), !s.contains(v.en), v.st != v.en, s.contains(d.st), s.contains(d.en), a != d.st, a != d.en,
    ensures without_markers(with_markers(s, a, v), d) == with_markers(without_markers(s, d), a, v),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let x1 = place(s, v.en, Some(a)); let x2 = place(x1, v.st, Some(v.en)); let x3 = cut(x2, d.st); let x4 = cut(x3, d.en);
    place_rank(s, v.en, Some(a)); place_rank(x1, v.st, Some(v.en)); cut_rank(x2, d.st); cut_rank(x3, d.en);
    let y1 = cut(s, d.st); let y2 = cut(y1, d.en); let y3 = place(y2, v.en, Some(a)); let y4 = place(y3, v.st, Some(v.en));
    cut_rank(s, d.st); cut_rank(y1, d.en); place_rank(y2, v.en, Some(a)); place_rank(y3, v.st, Some(v.en));
    same_rank(x4, y4);
}
pub proof fn framed_twice<K>(m0: Blocks<K>, s0: Seq<int>, m1: Blocks<K>, s1: Seq<int>, m2: Blocks<K>, s2: Seq<int>, S: int, E: int)
    requires
        framed(m0, s0, m1, s1, S, E), framed(m1, s1, m2, s2, S, E),
        forall|k: K| #[trigger] m0.dom().contains(k) && m2.dom().contains(k) && m0[k] == m2[k] ==> m1.dom().contains(k) && m1[k] == m0[k],
    ensures framed(m0, s0, m2, s2, S, E),
{
    hide(bef); hide(inside); hide(within);
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    assert forall|x: int| (s2.contains(x) && !#[trigger] inside(s2, S, E, x)) <==> (s0.contains(x) && !inside(s0, S, E, x)) by { assert((s1.contains(x) && !inside(s1, S, E, x)) <==> (s0.contains(x) && !inside(s0, S, E, x))); assert((s2.contains(x) && !inside(s2, S, E, x)) <==> (s1.contains(x) && !inside(s1, S, E, x))); }
    assert forall|x: int, y: int| s0.contains(x) && !inside(s0, S, E, x) && s0.contains(y) && !inside(s0, S, E, y) implies #[trigger] bef(s2, x, y) == bef(s0, x, y) by {
        assert((s1.contains(x) && !inside(s1, S, E, x)) <==> (s0.contains(x) && !inside(s0, S, E, x))); assert((s1.contains(y) && !inside(s1, S, E, y)) <==> (s0.contains(y) && !inside(s0, S, E, y))); assert(bef(s1, x, y) == bef(s0, x, y)); assert(bef(s2, x, y) == bef(s1, x, y));
    }
    assert forall|k: K, x: int| m0.dom().contains(k) && m2.dom().contains(k) && m0[k] == m2[k] implies #[trigger] within(m2, s2, k, x) == within(m0, s0, k, x) by { look(within(m1, s1, k, x)); }
    assert forall|k: K, x: int, y: int| m0.dom().contains(k) && m2.dom().contains(k) && m0[k] == m2[k] && #[trigger] within(m2, s2, k, x) && #[trigger] within(m2, s2, k, y) implies bef(s2, x, y) == bef(s0, x, y) by {
        look(within(m1, s1, k, x)); look(within(m1, s1, k, y)); look(bef(s1, x, y));
    }
}
/// putting a block before the one it replaces
proof fn put_same<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, v: Block)
    requires fits(m, s, S, E, o), m.dom().contains(k), !s.contains(v.st), !s.contains(v.en), v.st != v.en,
    ensures
        fits(m.insert(k, v), without_markers(with_markers(s, st(m, k), v), m[k]), S, E, o),
        framed(m, s, m.insert(k, v), without_markers(with_markers(s, st(m, k), v), m[k]), S, E),
        forall|x: int| !#[trigger] within(m.insert(k, v), without_markers(with_markers(s, st(m, k), v), m[k]), k, x),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let a = st(m, k);
    let d = m[k];
    let n = m.insert(k, v);
    let x1 = place(s, v.en, Some(a)); let x2 = place(x1, v.st, Some(v.en)); let x3 = cut(x2, d.st); let t = cut(x3, d.en);
    assert(m.dom().contains(k));
    place_rank(s, v.en, Some(a)); place_rank(x1, v.st, Some(v.en)); cut_rank(x2, d.st); cut_rank(x3, d.en);
    assert forall|x: int, y: int| #[trigger] bef(t, x, y) == (x != d.st && x != d.en && y != d.st && y != d.en && (
            if x == v.st { y == v.en || y != v.st && s.contains(y) && right(s, y, Some(a)) }
            else if x == v.en { y != v.st && y != v.en && s.contains(y) && right(s, y, Some(a)) }
            else if y == v.st || y == v.en { left(s, x, Some(a)) } else { bef(s, x, y) })) by {}
    assert forall|j: K| #[trigger] n.dom().contains(j) implies bef(t, S, st(n, j)) && bef(t, st(n, j), en(n, j)) && bef(t, en(n, j), E) by {
        if j != k { assert(m.dom().contains(j)); apart(m, s, S, E, o, j, k); }
    }
    assert forall|i: K, j: K| #[trigger] bef(o, i, j) implies bef(t, en(n, i), st(n, j)) by {
        assert(o.contains(i) && o.contains(j)); assert(m.dom().contains(i) && m.dom().contains(j));
        if i != k { apart(m, s, S, E, o, i, k); }
        if j != k { apart(m, s, S, E, o, j, k); }
    }
    assert forall|j: K| #[trigger] o.contains(j) <==> n.dom().contains(j) by { assert(o.contains(j) == m.dom().contains(j)); }
    assert forall|j: K, x: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] implies #[trigger] within(n, t, j, x) == within(m, s, j, x) by {
        assert(j != k);
        apart(m, s, S, E, o, j, k);
    }
    assert forall|j: K, x: int, y: int| m.dom().contains(j) && n.dom().contains(j) && m[j] == n[j] && #[trigger] within(n, t, j, x) && #[trigger] within(n, t, j, y) implies bef(t, x, y) == bef(s, x, y) by {
        assert(within(m, s, j, x) && within(m, s, j, y));
        assert(j != k);
        apart(m, s, S, E, o, j, k);
    }
}
/// putting a block for a key that has one already
pub proof fn put_again<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, v: Block, b: Option<K>)
    requires fits(m, s, S, E, o), m.dom().contains(k), !s.contains(v.st), !s.contains(v.en), v.st != v.en,
    ensures
        fits(m.insert(k, v), without_markers(with_markers(s, spot(m, E, b), v), m[k]), S, E, o_put(o, k, b)),
        framed(m, s, m.insert(k, v), without_markers(with_markers(s, spot(m, E, b), v), m[k]), S, E),
        forall|x: int| !#[trigger] within(m.insert(k, v), without_markers(with_markers(s, spot(m, E, b), v), m[k]), k, x),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let d = m[k];
    assert(m.dom().contains(k));
    assert(o.contains(k));
    if b == Some(k) { put_same(m, s, S, E, o, k, v); }
    else {
        let a = spot(m, E, b);
        let m1 = m.remove(k);
        let s1 = without_markers(s, d);
        cut_rank(o, k);
        if let Some(x) = b {
            assert(o.contains(x) == m.dom().contains(x));
            assert(cut(o, k).contains(x) == o.contains(x));
            if m.dom().contains(x) { apart(m, s, S, E, o, x, k); }
        }
        commute(s, a, v, d);
        take_out(m, s, S, E, o, k);
        cut_rank(s, d.st); cut_rank(cut(s, d.st), d.en);
        assert(spot(m1, E, b) == a);
        put_new(m1, s1, S, E, cut(o, k), k, v, b);
        cut_rank(cut(o, k), k);
        assert(cut(cut(o, k), k) == cut(o, k));
        assert(there(cut(o, k), b) == there(o, b));
        assert(m1.insert(k, v) =~= m.insert(k, v));
        framed_twice(m, s, m1, s1, m.insert(k, v), with_markers(s1, a, v), S, E);
    }
}
/// moving a block before another, or to the end
pub proof fn carry<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, b: Option<K>, t: Seq<int>)
    requires
        fits(m, s, S, E, o), m.dom().contains(k), spot(m, E, b) != st(m, k),
        shifted(s, s, span(s, st(m, k), en(m, k)), Some(spot(m, E, b)), t),
    ensures
        fits(m, t, S, E, o_put(o, k, b)),
        framed(m, s, m, t, S, E),
        !span(s, st(m, k), en(m, k))(spot(m, E, b)),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let a = spot(m, E, b);
    let p = span(s, st(m, k), en(m, k));
    let o1 = o_put(o, k, b);
    assert(m.dom().contains(k));
    assert(o.contains(k));
    cut_rank(o, k);
    if let Some(x) = b {
        assert(o.contains(x) == m.dom().contains(x));
        assert(cut(o, k).contains(x) == (o.contains(x) && x != k));
        if m.dom().contains(x) { assert(x != k); apart(m, s, S, E, o, x, k); }
    }
    assert(!p(a));
    assert(b != Some(k));
    place_rank(cut(o, k), k, there(o, b));
    assert(p(st(m, k)) && p(en(m, k)) && !p(S) && !p(E));
    assert forall|j: K| #[trigger] o1.contains(j) <==> m.dom().contains(j) by { assert(cut(o, k).contains(j) == (o.contains(j) && j != k)); assert(o.contains(j) == m.dom().contains(j)); }
    assert forall|j: K| #[trigger] m.dom().contains(j) implies bef(t, S, st(m, j)) && bef(t, st(m, j), en(m, j)) && bef(t, en(m, j), E) by {
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(st(m, j)) && !p(en(m, j))); }
        else { assert(right(s, E, Some(a))); assert(left(s, S, Some(a))); }
    }
    assert forall|i: K, j: K| #[trigger] bef(o1, i, j) implies bef(t, en(m, i), st(m, j)) by {
        assert(o1.contains(i) && o1.contains(j));
        assert(m.dom().contains(i) && m.dom().contains(j));
        if i != k { apart(m, s, S, E, o, i, k); assert(!p(en(m, i))); }
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(st(m, j))); }
        if i == k { assert(j != k); if let Some(x) = b { if m.dom().contains(x) && x != j { apart(m, s, S, E, o, x, j); } } }
        else if j == k { if let Some(x) = b { if m.dom().contains(x) { apart(m, s, S, E, o, i, x); } } }
    }
    assert forall|j: K| #[trigger] m.dom().contains(j) implies !bef(s, st(m, j), a) || bef(s, en(m, j), a) by { if let Some(x) = b { if m.dom().contains(x) && x != j { apart(m, s, S, E, o, x, j); } } }
    carried(m, s, S, E, o, k, a, t);
}
/// what moving a block anywhere between S and E but into a block leaves as it is
proof fn carried<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, a: int, t: Seq<int>)
    requires
        fits(m, s, S, E, o), m.dom().contains(k), !span(s, st(m, k), en(m, k))(a), bef(s, S, a), a == E || bef(s, a, E),
        forall|j: K| #[trigger] m.dom().contains(j) ==> !bef(s, st(m, j), a) || bef(s, en(m, j), a),
        shifted(s, s, span(s, st(m, k), en(m, k)), Some(a), t),
    ensures framed(m, s, m, t, S, E),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let p = span(s, st(m, k), en(m, k));
    assert(m.dom().contains(k));
    assert(!p(S) && !p(E));
    assert forall|x: int| (t.contains(x) && !#[trigger] inside(t, S, E, x)) <==> (s.contains(x) && !inside(s, S, E, x)) by {
        assert(t.contains(x) == (s.contains(x) || p(x)));
        look(bef(t, S, x)); look(bef(t, x, E));
    }
    assert forall|x: int, y: int| s.contains(x) && !inside(s, S, E, x) && s.contains(y) && !inside(s, S, E, y) implies #[trigger] bef(t, x, y) == bef(s, x, y) by {
        assert(!p(x)); assert(!p(y));
    }
    assert forall|j: K, x: int| m.dom().contains(j) implies #[trigger] within(m, t, j, x) == within(m, s, j, x) by {
        assert(m.dom().contains(j));
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(st(m, j)) && !p(en(m, j))); }
        else { assert(p(st(m, j)) && p(en(m, j))); }
        look(bef(t, st(m, j), x)); look(bef(t, x, en(m, j)));
    }
    assert forall|j: K, x: int, y: int| m.dom().contains(j) && #[trigger] within(m, t, j, x) && #[trigger] within(m, t, j, y) implies bef(t, x, y) == bef(s, x, y) by {
        assert(within(m, s, j, x) && within(m, s, j, y));
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(x) && !p(y)); } else { assert(p(x) && p(y)); }
    }
}
// ---- exchanging two blocks
pub open spec fn other<K>(a: K, b: K, x: K) -> K { if x == a { b } else if x == b { a } else { x } }
pub open spec fn exchanged<K>(o: Seq<K>, a: K, b: K) -> Seq<K> { o.map_values(|x: K| other(a, b, x)) }
pub proof fn exchanged_rank<K>(o: Seq<K>, a: K, b: K)
    requires o.no_duplicates(), o.contains(a), o.contains(b),
    ensures
        exchanged(o, a, b).no_duplicates(),
        forall|x: K| #[trigger] exchanged(o, a, b).contains(x) <==> o.contains(x),
        forall|x: K, y: K| #[trigger] bef(exchanged(o, a, b), x, y) <==> bef(o, other(a, b, x), other(a, b, y)),
{
    let r = exchanged(o, a, b);
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(r[i] == other(a, b, o[i]) && r[j] == other(a, b, o[j])); assert(o[i] != o[j]); }
    assert forall|x: K| o.contains(other(a, b, x)) implies #[trigger] r.contains(x) && idx(r, x) == idx(o, other(a, b, x)) by {
        let i = idx(o, other(a, b, x));
        assert(o[i] == other(a, b, x));
        assert(r[i] == x);
        idx_at(r, i);
    }
    assert forall|x: K| #[trigger] r.contains(x) implies o.contains(x) && o.contains(other(a, b, x)) by { let i = idx(r, x); assert(r[i] == x); assert(r[i] == other(a, b, o[i])); assert(o.contains(o[i])); }
    assert forall|x: K, y: K| #[trigger] bef(r, x, y) <==> bef(o, other(a, b, x), other(a, b, y)) by {
        assert(r.contains(x) ==> o.contains(x)); assert(r.contains(y) ==> o.contains(y));
    }
}
pub open spec fn span_of<K>(m: Blocks<K>, s: Seq<int>, k: K) -> spec_fn(int) -> bool { span(s, st(m, k), en(m, k)) }
/// the block of k, moved before the node a
pub open spec fn put_at<K>(m: Blocks<K>, s: Seq<int>, k: K, a: int, t: Seq<int>) -> bool { shifted(s, s, span_of(m, s, k), Some(a), t) }
/// l comes right after k
pub proof fn swap_next<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, l: K, t: Seq<int>)
    requires
        fits(m, s, S, E, o), m.dom().contains(k), m.dom().contains(l), k != l,
        forall|x: int| !(#[trigger] bef(s, en(m, k), x) && bef(s, x, st(m, l))), bef(s, en(m, k), st(m, l)),
        put_at(m, s, l, st(m, k), t),
    ensures
        fits(m, t, S, E, exchanged(o, k, l)),
        framed(m, s, m, t, S, E),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(framed); hide(exchanged);
    let o1 = o_put(o, l, Some(k));
    assert(o.contains(k) && o.contains(l)) by { assert(m.dom().contains(k) && m.dom().contains(l)); }
    apart(m, s, S, E, o, k, l);
    carry(m, s, S, E, o, l, Some(k), t);
    exchanged_rank(o, k, l);
    cut_rank(o, l);
    assert(cut(o, l).contains(k));
    place_rank(cut(o, l), l, Some(k));
    let o2 = exchanged(o, k, l);
    assert forall|x: K| #[trigger] o1.contains(x) <==> o2.contains(x) by { assert(cut(o, l).contains(x) == (o.contains(x) && x != l)); }
    // nothing between k and l
    assert forall|x: K| !(#[trigger] bef(o, k, x) && bef(o, x, l)) by {
        if bef(o, k, x) && bef(o, x, l) { assert(o.contains(x)); assert(m.dom().contains(x)); assert(bef(s, en(m, k), st(m, x)) && bef(s, en(m, x), st(m, l))); }
    }
    assert forall|x: K, y: K| #[trigger] bef(o1, x, y) implies bef(o2, x, y) by {
        let c = cut(o, l);
        assert(bef(c, x, y) == (bef(o, x, y) && x != l && y != l));
        assert(bef(c, x, k) == (bef(o, x, k) && x != l));
        assert(bef(c, k, y) == (bef(o, k, y) && y != l));
        if x == l {
            if y == k { assert(bef(o, k, l)); } else { assert(bef(o, k, y)); assert(o.contains(y)); total(o, y, l); }
        } else if y == l {
            assert(bef(o, x, k));
        } else if x == k {
            assert(o.contains(y)); total(o, y, l); 
        } else if y == k {
            assert(bef(o, x, k)); 
        }
    }
    same_rank(o1, o2);
}
/// two moves: k before l, then l to where k was (the node a, which came right after it)
pub proof fn swap_far_ok<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, l: K, a: int, t: Seq<int>)
    requires
        fits(m, s, S, E, o), m.dom().contains(k), m.dom().contains(l), k != l, a != st(m, l),
        bef(s, en(m, k), a), forall|x: int| !(#[trigger] bef(s, en(m, k), x) && bef(s, x, a)),
        put_at(m, s, k, st(m, l), t),
    ensures
        !span_of(m, t, l)(a), t.contains(a), bef(t, st(m, l), en(m, l)), t.contains(st(m, l)), t.contains(en(m, l)),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(exchanged);
    let p = span_of(m, s, k);
    let q = span_of(m, t, l);
    assert(m.dom().contains(k) && m.dom().contains(l));
    assert(o.contains(k) && o.contains(l));
    apart(m, s, S, E, o, k, l);
    let o1 = o_put(o, k, Some(l));
    carry(m, s, S, E, o, k, Some(l), t);
    assert(p(st(m, k)) && p(en(m, k)) && !p(S) && !p(E) && !p(st(m, l)) && !p(en(m, l)));
    assert(!p(a));
    assert(t.contains(a));
    assert forall|x: int| #[trigger] q(x) == (s.contains(x) && !p(x) && (x == st(m, l) || bef(s, st(m, l), x)) && (x == en(m, l) || bef(s, x, en(m, l)))) by {
        if t.contains(x) { same_idx(t, x, st(m, l)); same_idx(t, x, en(m, l)); }
        look(bef(t, st(m, l), x)); look(bef(t, x, en(m, l))); look(bef(t, x, st(m, l))); look(bef(t, en(m, l), x));
        assert(q(x) == (t.contains(x) && (x == st(m, l) || bef(t, st(m, l), x)) && (x == en(m, l) || bef(t, x, en(m, l)))));
    }
    assert(bef(s, a, E) || a == E) by { same_idx(s, a, E); if bef(s, E, a) { assert(bef(s, en(m, k), E)); } }
    assert(bef(s, S, a));
    assert forall|j: K| #[trigger] m.dom().contains(j) && j != k implies !bef(s, st(m, j), a) || bef(s, en(m, j), a) by { apart(m, s, S, E, o, j, k); }
    assert(!q(a)) by { if q(a) { assert(m.dom().contains(l)); } }
}
/// two moves: k before l, then l to where k was (the node a, which came right after it)
pub proof fn swap_far<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, l: K, a: int, t: Seq<int>, u: Seq<int>)
    requires
        fits(m, s, S, E, o), m.dom().contains(k), m.dom().contains(l), k != l, a != st(m, l),
        bef(s, en(m, k), a), forall|x: int| !(#[trigger] bef(s, en(m, k), x) && bef(s, x, a)),
        put_at(m, s, k, st(m, l), t), put_at(m, t, l, a, u),
    ensures
        fits(m, u, S, E, exchanged(o, k, l)),
        framed(m, s, m, u, S, E),
        !span_of(m, t, l)(a), t.contains(a),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(exchanged);
    let o2 = exchanged(o, k, l);
    let p = span_of(m, s, k);
    let q = span_of(m, t, l);
    assert(m.dom().contains(k) && m.dom().contains(l));
    assert(o.contains(k) && o.contains(l));
    apart(m, s, S, E, o, k, l);
    let o1 = o_put(o, k, Some(l));
    carry(m, s, S, E, o, k, Some(l), t);
    assert(p(st(m, k)) && p(en(m, k)) && !p(S) && !p(E) && !p(st(m, l)) && !p(en(m, l)));
    assert(!p(a));
    assert(t.contains(a));
    assert forall|x: int| #[trigger] q(x) == (s.contains(x) && !p(x) && (x == st(m, l) || bef(s, st(m, l), x)) && (x == en(m, l) || bef(s, x, en(m, l)))) by {
        if t.contains(x) { same_idx(t, x, st(m, l)); same_idx(t, x, en(m, l)); }
        look(bef(t, st(m, l), x)); look(bef(t, x, en(m, l))); look(bef(t, x, st(m, l))); look(bef(t, en(m, l), x));
        assert(q(x) == (t.contains(x) && (x == st(m, l) || bef(t, st(m, l), x)) && (x == en(m, l) || bef(t, x, en(m, l)))));
    }
    assert(bef(s, a, E) || a == E) by { same_idx(s, a, E); if bef(s, E, a) { assert(bef(s, en(m, k), E)); } }
    assert(bef(s, S, a));
    assert forall|j: K| #[trigger] m.dom().contains(j) && j != k implies !bef(s, st(m, j), a) || bef(s, en(m, j), a) by { apart(m, s, S, E, o, j, k); }
    assert(!q(a)) by { if q(a) { assert(m.dom().contains(l)); } }
    assert forall|j: K| #[trigger] m.dom().contains(j) implies !bef(t, st(m, j), a) || bef(t, en(m, j), a) by {
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(st(m, j)) && !p(en(m, j))); }
    }
    assert(bef(t, S, a)); assert(a == E || bef(t, a, E));
    carried(m, t, S, E, o1, l, a, u);
    framed_twice(m, s, m, t, m, u, S, E);
    assert(q(st(m, l)) && q(en(m, l)) && !q(S) && !q(E) && !q(st(m, k)) && !q(en(m, k)));
    exchanged_rank(o, k, l);
    assert forall|j: K| #[trigger] o2.contains(j) <==> m.dom().contains(j) by { assert(o.contains(j) == m.dom().contains(j)); }
    assert forall|j: K| #[trigger] m.dom().contains(j) implies bef(u, S, st(m, j)) && bef(u, st(m, j), en(m, j)) && bef(u, en(m, j), E) by {
        if j != l { apart(m, s, S, E, o, j, l); assert(!q(st(m, j)) && !q(en(m, j))); }
        assert(bef(t, S, st(m, j)) && bef(t, st(m, j), en(m, j)) && bef(t, en(m, j), E));
    }
    assert forall|i: K, j: K| #[trigger] bef(o2, i, j) implies bef(u, en(m, i), st(m, j)) by {
        assert(bef(o, other(k, l, i), other(k, l, j)));
        assert(o2.contains(i) && o2.contains(j));
        assert(m.dom().contains(i) && m.dom().contains(j));
        if i != k { apart(m, s, S, E, o, i, k); assert(!p(st(m, i)) && !p(en(m, i))); }
        if i != l { apart(m, s, S, E, o, i, l); assert(!q(st(m, i)) && !q(en(m, i))); }
        if j != k { apart(m, s, S, E, o, j, k); assert(!p(st(m, j)) && !p(en(m, j))); }
        if j != l { apart(m, s, S, E, o, j, l); assert(!q(st(m, j)) && !q(en(m, j))); }
        look(bef(t, en(m, i), a)); look(bef(t, a, st(m, j))); look(bef(t, en(m, i), st(m, j)));
        look(bef(s, en(m, i), a)); look(bef(s, a, st(m, j)));
        same_idx(s, a, st(m, j));
        same_idx(s, a, st(m, l));
        if i == l {
            if j == k { assert(bef(s, a, st(m, l))); assert(bef(t, a, st(m, k))); assert(bef(u, en(m, l), st(m, k))); }
            else { assert(bef(o, k, j)); assert(bef(s, en(m, k), st(m, j))); assert(st(m, j) == a || bef(s, a, st(m, j))); assert(st(m, j) == a || bef(t, a, st(m, j))); assert(bef(u, en(m, l), st(m, j))); }
        } else if i == k {
            if j == l { assert(bef(o, l, k)); assert(bef(s, st(m, l), a)); assert(bef(t, en(m, k), a)); assert(bef(u, en(m, k), st(m, l))); }
            else { assert(bef(o, l, j)); assert(bef(s, st(m, l), st(m, j))); assert(bef(t, en(m, k), st(m, j))); assert(bef(u, en(m, k), st(m, j))); }
        } else if j == k { assert(bef(o, i, l)); assert(bef(t, en(m, i), st(m, k))); assert(bef(u, en(m, i), st(m, k))); }
        else if j == l { assert(bef(o, i, k)); assert(bef(s, en(m, i), a)); assert(bef(t, en(m, i), a)); assert(bef(u, en(m, i), st(m, l))); }
        else { assert(bef(s, en(m, i), st(m, j))); assert(bef(t, en(m, i), st(m, j))); assert(bef(u, en(m, i), st(m, j))); }
    }
}
pub proof fn same_idx<T>(s: Seq<T>, x: T, y: T)
    requires s.contains(x), s.contains(y),
    ensures idx(s, x) == idx(s, y) ==> x == y,
{ at_idx(s, x); at_idx(s, y); }
pub proof fn framed_same<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int)
    ensures framed(m, s, m, s, S, E),
{}
/// the place to carry a block to is not in it
pub proof fn carry_ok<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, k: K, b: Option<K>)
    requires fits(m, s, S, E, o), m.dom().contains(k), spot(m, E, b) != st(m, k),
    ensures !span_of(m, s, k)(spot(m, E, b)), s.contains(spot(m, E, b)),
{
    assert(m.dom().contains(k));
    if let Some(x) = b { if m.dom().contains(x) { apart(m, s, S, E, o, x, k); } }
}
pub proof fn exchanged_self<K>(o: Seq<K>, k: K)
    ensures exchanged(o, k, k) == o,
{ assert(exchanged(o, k, k) =~= o); }
/// what comes right after n
pub proof fn has_next(s: Seq<int>, n: int, e: int)
    requires s.no_duplicates(), bef(s, n, e),
    ensures
        idx(s, n) + 1 < s.len(), s.contains(s[idx(s, n) + 1]), bef(s, n, s[idx(s, n) + 1]),
        forall|x: int| !(#[trigger] bef(s, n, x) && bef(s, x, s[idx(s, n) + 1])),
{
    at_idx(s, e); at_idx(s, n);
    idx_at(s, idx(s, n) + 1);
}
pub proof fn fits_none<K>(s: Seq<int>, S: int, E: int)
    requires s.no_duplicates(), bef(s, S, E),
    ensures fits(Map::<K, Block>::empty(), s, S, E, Seq::<K>::empty()),
{}
/// what is around a node
pub proof fn follows(s: Seq<int>, x: int)
    requires s.no_duplicates(), s.contains(x),
    ensures
        0 <= idx(s, x) < s.len(),
        idx(s, x) + 1 < s.len() ==> s.contains(s[idx(s, x) + 1]) && idx(s, s[idx(s, x) + 1]) == idx(s, x) + 1,
        forall|y: int| #[trigger] s.contains(y) ==> 0 <= idx(s, y) < s.len() && (idx(s, y) == idx(s, x) ==> y == x) && (idx(s, x) + 1 < s.len() && idx(s, y) == idx(s, x) + 1 ==> y == s[idx(s, x) + 1]),
{
    at_idx(s, x);
    if idx(s, x) + 1 < s.len() { idx_at(s, idx(s, x) + 1); }
    assert forall|y: int| #[trigger] s.contains(y) implies 0 <= idx(s, y) < s.len() && (idx(s, y) == idx(s, x) ==> y == x) && (idx(s, x) + 1 < s.len() && idx(s, y) == idx(s, x) + 1 ==> y == s[idx(s, x) + 1]) by { at_idx(s, y); }
}
/// all of g put into s
pub proof fn pour<K>(m: Blocks<K>, g: Seq<int>, S: int, E: int, o: Seq<K>, s: Seq<int>, a: Option<int>, t: Seq<int>)
    requires
        fits(m, g, S, E, o), s.no_duplicates(), forall|x: int| g.contains(x) ==> !#[trigger] s.contains(x),
        shifted(g, s, |x: int| g.contains(x), a, t),
    ensures
        fits(m, t, S, E, o), kept(m, g, m, t),
        forall|x: int, y: int| s.contains(x) && s.contains(y) ==> #[trigger] bef(t, x, y) == bef(s, x, y),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let p = |x: int| g.contains(x);
    assert forall|x: int, y: int| g.contains(x) && g.contains(y) implies #[trigger] bef(t, x, y) == bef(g, x, y) by { assert(p(x) && p(y)); }
    assert forall|x: int, y: int| s.contains(x) && s.contains(y) implies #[trigger] bef(t, x, y) == bef(s, x, y) by { assert(!p(x) && !p(y)); }
    assert forall|k: K| #[trigger] m.dom().contains(k) implies bef(t, S, st(m, k)) && bef(t, st(m, k), en(m, k)) && bef(t, en(m, k), E) by {}
    assert forall|k: K, l: K| #[trigger] bef(o, k, l) implies bef(t, en(m, k), st(m, l)) by { assert(m.dom().contains(k) && m.dom().contains(l)) by { assert(o.contains(k) && o.contains(l)); } }
    assert forall|k: K, x: int| m.dom().contains(k) implies #[trigger] within(m, t, k, x) == within(m, g, k, x) by {
        assert(p(st(m, k)) && p(en(m, k)));
        if p(x) {} else { look(bef(t, st(m, k), x)); look(bef(t, x, en(m, k))); }
    }
}
/// the nodes from S to E taken out of s and put at the end of r
pub proof fn gathered<K>(m: Blocks<K>, s: Seq<int>, S: int, E: int, o: Seq<K>, r: Seq<int>, t: Seq<int>)
    requires fits(m, s, S, E, o), r.no_duplicates(), shifted(s, r, span(s, S, E), None, t),
    ensures fits(m, t, S, E, o), kept(m, s, m, t),
{
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut);
    let p = span(s, S, E);
    assert(p(S) && p(E));
    assert forall|k: K| #[trigger] m.dom().contains(k) implies bef(t, S, st(m, k)) && bef(t, st(m, k), en(m, k)) && bef(t, en(m, k), E) && p(st(m, k)) && p(en(m, k)) by { assert(p(st(m, k)) && p(en(m, k))); }
    assert forall|k: K, l: K| #[trigger] bef(o, k, l) implies bef(t, en(m, k), st(m, l)) by { assert(m.dom().contains(k) && m.dom().contains(l)) by { assert(o.contains(k) && o.contains(l)); } assert(p(st(m, l)) && p(en(m, k))); }
    assert forall|k: K, x: int| m.dom().contains(k) implies #[trigger] within(m, t, k, x) == within(m, s, k, x) by {
        assert(p(st(m, k)) && p(en(m, k)));
        if within(m, s, k, x) { assert(p(x)); }
        look(bef(t, st(m, k), x)); look(bef(t, x, en(m, k)));
        if !p(x) && within(m, t, k, x) { assert(right(r, x, None)); }
    }
    assert forall|k: K, x: int, y: int| m.dom().contains(k) && #[trigger] within(m, t, k, x) && #[trigger] within(m, t, k, y) implies bef(t, x, y) == bef(s, x, y) by { assert(within(m, s, k, x) && within(m, s, k, y)); assert(p(x) && p(y)); }
}
} // verus!
