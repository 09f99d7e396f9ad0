verus! {
// ======== every history of one page ========
/// a place things are rendered in: a group, its container, and what it stays before
pub ghost struct Place { pub group: int, pub container: int, pub reference: Option<int> }
spec fn place_of(d: DomContext) -> Place { Place { group: d.group(), container: d.container(), reference: d.reference() } }
spec fn holds(g: Group, x: int) -> bool { exists|k: Seq<u32>| #[trigger] g.contains_key(k) && g[k] == x }
spec fn place_ok(e: Place, gs: Groups, w: World) -> bool {
    &&& ordered(w.kids(e.container), gs.of(e.group))
    &&& e.reference is Some ==> all_before(w.kids(e.container), gs.of(e.group), e.reference.unwrap())
}
/// every group mirrors its container, in order; no node is in two groups of one container
spec fn page_ok(ps: Set<Place>, gs: Groups, w: World) -> bool {
    &&& forall|e: Place| #[trigger] ps.contains(e) ==> place_ok(e, gs, w)
    &&& forall|e: Place, f: Place| #[trigger] ps.contains(e) && #[trigger] ps.contains(f) && e != f ==> e.group != f.group
    &&& forall|e: Place, f: Place, x: int| #[trigger] ps.contains(e) && #[trigger] ps.contains(f) && e != f && #[trigger] holds(gs.of(e.group), x) ==> !(e.container == f.container && holds(gs.of(f.group), x))
}
/// the page after one place was added to
proof fn page_added(ps: Set<Place>, e: Place, gs0: Groups, w0: World, gs1: Groups, w1: World, p: Seq<u32>, x: int)
    requires
        page_ok(ps, gs0, w0), ps.contains(e), loose(w0.doc@, x), !gs0.of(e.group).contains_key(p),
        added(w0.kids(e.container), gs0.of(e.group), w1.kids(e.container), gs1.of(e.group), p, x, e.reference),
        w1.doc@ == with_kids(w0.doc@, e.container, w1.kids(e.container)), gs1.g@ == with_group(gs0.g@, e.group, gs1.of(e.group)),
    ensures page_ok(ps, gs1, w1),
{
    let (s0, g0, s1, g1) = (w0.kids(e.container), gs0.of(e.group), w1.kids(e.container), gs1.of(e.group));
    assert(place_ok(e, gs0, w0));
    assert(!w0.doc@(e.container).contains(x));
    add_keeps(s0, g0, s1, g1, p, x, e.reference);
    let at = choose|at: Option<int>| #[trigger] added_at(s0, g0, s1, p, x, e.reference, at);
    put_facts(s0, x, at);
    assert forall|f: Place| #[trigger] ps.contains(f) implies place_ok(f, gs1, w1) by {
        assert(place_ok(f, gs0, w0));
        if f != e {
            assert(gs1.of(f.group) == gs0.of(f.group));
            if f.container == e.container {
                let g = gs0.of(f.group);
                assert forall|k: Seq<u32>| #[trigger] g.contains_key(k) implies s1.contains(g[k]) by { assert(s0.contains(g[k])); }
                assert forall|a: Seq<u32>, b: Seq<u32>| g.contains_key(a) && g.contains_key(b) && #[trigger] plt(a, b) implies before(s1, g[a], g[b]) by { assert(before(s0, g[a], g[b])); }
                if f.reference is Some {
                    assert forall|k: Seq<u32>| #[trigger] g.contains_key(k) implies before(s1, g[k], f.reference.unwrap()) by { assert(before(s0, g[k], f.reference.unwrap())); }
                }
            } else { assert(w1.kids(f.container) == w0.kids(f.container)); }
        }
    }
    assert forall|f: Place, h: Place, y: int| #[trigger] ps.contains(f) && #[trigger] ps.contains(h) && f != h && #[trigger] holds(gs1.of(f.group), y) implies !(f.container == h.container && holds(gs1.of(h.group), y)) by {
        assert(place_ok(f, gs0, w0) && place_ok(h, gs0, w0));
        if f != e { assert(gs1.of(f.group) == gs0.of(f.group)); }
        if h != e { assert(gs1.of(h.group) == gs0.of(h.group)); }
        if y != x {
            only_new(g0, p, x, y);
            assert(holds(gs0.of(f.group), y));
        } else if f.container == h.container && holds(gs1.of(h.group), y) {
            // x was nowhere: only e holds it now
            let o = if f == e { h } else { f };
            let g = gs0.of(o.group);
            let k = choose|k: Seq<u32>| #[trigger] g.contains_key(k) && g[k] == x;
            assert(w0.kids(o.container).contains(g[k])); assert(!w0.doc@(o.container).contains(x));
        }
    }
}
proof fn only_new(g0: Group, p: Seq<u32>, x: int, y: int)
    requires y != x, !g0.contains_key(p),
    ensures holds(g0.insert(p, x), y) == holds(g0, y),
{
    let g1 = g0.insert(p, x);
    if holds(g1, y) { let k = choose|k: Seq<u32>| #[trigger] g1.contains_key(k) && g1[k] == y; assert(g0.contains_key(k)); }
    if holds(g0, y) { let k = choose|k: Seq<u32>| #[trigger] g0.contains_key(k) && g0[k] == y; assert(g1.contains_key(k)); assert(g1[k] == y); }
}
/// the page after everything at or below a position of one place was removed
proof fn page_removed(ps: Set<Place>, e: Place, gs0: Groups, w0: World, gs1: Groups, w1: World, p: Seq<u32>)
    requires
        page_ok(ps, gs0, w0), ps.contains(e),
        forall|f: Place| #[trigger] ps.contains(f) && f != e && f.container == e.container && f.reference is Some ==> !gone(gs0.of(e.group), p, f.reference.unwrap()),
        removed(w0.kids(e.container), gs0.of(e.group), w1.kids(e.container), gs1.of(e.group), p),
        w1.doc@ == with_kids(w0.doc@, e.container, w1.kids(e.container)), gs1.g@ == with_group(gs0.g@, e.group, gs1.of(e.group)),
    ensures page_ok(ps, gs1, w1),
{
    let (s0, g0, s1, g1) = (w0.kids(e.container), gs0.of(e.group), w1.kids(e.container), gs1.of(e.group));
    assert(place_ok(e, gs0, w0));
    remove_keeps(s0, g0, s1, g1, p, e.reference);
    filter_facts(s0, not_gone(g0, p));
    assert forall|f: Place| #[trigger] ps.contains(f) implies place_ok(f, gs1, w1) by {
        assert(place_ok(f, gs0, w0));
        if f != e {
            assert(gs1.of(f.group) == gs0.of(f.group));
            if f.container == e.container {
                let g = gs0.of(f.group);
                assert forall|k: Seq<u32>| #[trigger] g.contains_key(k) implies s1.contains(g[k]) && !gone(g0, p, g[k]) by {
                    assert(s0.contains(g[k]));
                    assert(holds(g, g[k]));
                    if gone(g0, p, g[k]) { assert(holds(g0, g[k])); assert(ps.contains(e) && ps.contains(f) && f != e); }
                }
                assert forall|a: Seq<u32>, b: Seq<u32>| g.contains_key(a) && g.contains_key(b) && #[trigger] plt(a, b) implies before(s1, g[a], g[b]) by { assert(before(s0, g[a], g[b])); }
                if f.reference is Some {
                    assert forall|k: Seq<u32>| #[trigger] g.contains_key(k) implies before(s1, g[k], f.reference.unwrap()) by { assert(before(s0, g[k], f.reference.unwrap())); }
                }
            } else { assert(w1.kids(f.container) == w0.kids(f.container)); }
        }
    }
    assert forall|f: Place, h: Place, y: int| #[trigger] ps.contains(f) && #[trigger] ps.contains(h) && f != h && #[trigger] holds(gs1.of(f.group), y) implies !(f.container == h.container && holds(gs1.of(h.group), y)) by {
        if f != e { assert(gs1.of(f.group) == gs0.of(f.group)); } else { only_old(g0, g1, p, y); }
        if h != e { assert(gs1.of(h.group) == gs0.of(h.group)); } else { only_old(g0, g1, p, y); }
        assert(holds(gs0.of(f.group), y));
    }
}
proof fn only_old(g0: Group, g1: Group, p: Seq<u32>, y: int)
    requires kept(g0, g1, p),
    ensures holds(g1, y) ==> holds(g0, y),
{ if holds(g1, y) { let k = choose|k: Seq<u32>| #[trigger] g1.contains_key(k) && g1[k] == y; assert(g0.contains_key(k) && g0[k] == g1[k]); } }
// ======== what the properties say, read off the invariant ========
/// positions within child i of a combinator: at() only ever puts more segments on the side that counts less
proof fn within(d: DomContext, parent: DomContext, i: u32, q: Seq<u32>)
    requires d == (DomContext::Child { parent: &parent, index: i }),
    ensures d.at(q) == parent.at(q.push(i)), d.group() == parent.group(), d.container() == parent.container(),
{}
proof fn at_below(d: DomContext, q: Seq<u32>)
    ensures d.at(q) == q + d.at(Seq::empty()), extends(d.at(q), d.at(Seq::empty())),
    decreases d,
{
    match d {
        DomContext::Child { parent, index } => {
            at_below(*parent, q.push(index)); at_below(*parent, Seq::empty().push(index));
            assert(q.push(index) + parent.at(Seq::empty()) =~= q + (Seq::empty().push(index) + parent.at(Seq::empty())));
        }
        _ => { assert(q + Seq::<u32>::empty() =~= q); }
    }
    let e = d.at(Seq::empty());
    assert((q + e).skip((q + e).len() - e.len()) =~= e);
}
/// everything an earlier child of a combinator has rendered precedes everything a later one has, whatever is inside them
proof fn composed_in_order(e: Place, gs: Groups, w: World, parent: DomContext, i: u32, j: u32, a: Seq<u32>, b: Seq<u32>)
    requires
        place_ok(e, gs, w), place_of(parent) == e, i < j,
        extends(a, DomContext::Child { parent: &parent, index: i }.at(Seq::empty())), gs.of(e.group).contains_key(a),
        extends(b, DomContext::Child { parent: &parent, index: j }.at(Seq::empty())), gs.of(e.group).contains_key(b),
    ensures before(w.kids(e.container), gs.of(e.group)[a], gs.of(e.group)[b]), // [D01]
{
    let p = parent.at(Seq::empty());
    at_below(parent, Seq::empty().push(i)); at_below(parent, Seq::empty().push(j));
    assert(Seq::empty().push(i) + p =~= seq![i] + p); assert(Seq::empty().push(j) + p =~= seq![j] + p);
    children_in_order(a, b, p, i, j);
}
/// adding a node never reorders nodes already there, and takes none away
proof fn adding_keeps_order(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>, x: int, r: Option<int>, a: int, b: int)
    requires added(s0, g0, s1, g1, p, x, r), ordered(s0, g0), !s0.contains(x), r is Some ==> s0.contains(r.unwrap()),
    ensures s0.contains(a) ==> s1.contains(a), before(s0, a, b) ==> before(s1, a, b), s1.contains(x), // [D01]
{
    let at = choose|at: Option<int>| #[trigger] added_at(s0, g0, s1, p, x, r, at);
    put_facts(s0, x, at);
}
/// removing takes out what was rendered at or below the position and nothing else, and leaves the rest in order
proof fn removing_is_exact(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>, k: Seq<u32>, a: int, b: int)
    requires removed(s0, g0, s1, g1, p), ordered(s0, g0),
    ensures
        g0.contains_key(k) && extends(k, p) ==> !s1.contains(g0[k]) && !g1.contains_key(k), // [D02]
        g0.contains_key(k) && !extends(k, p) ==> s1.contains(g0[k]) && g1.contains_key(k) && g1[k] == g0[k], // [D02]
        s0.contains(a) && !holds(g0, a) ==> s1.contains(a), // [D02]
        s1.contains(a) ==> s0.contains(a), // [D02]
        before(s0, a, b) && s1.contains(a) && s1.contains(b) ==> before(s1, a, b), // [D02]
{
    filter_facts(s0, not_gone(g0, p));
    if g0.contains_key(k) && !extends(k, p) && gone(g0, p, g0[k]) {
        let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && extends(j, p) && g0[j] == g0[k]; distinct(s0, g0, j, k);
    }
    if g0.contains_key(k) && extends(k, p) { assert(gone(g0, p, g0[k])); }
    if gone(g0, p, a) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && extends(j, p) && g0[j] == a; assert(holds(g0, a)); }
}
#[verifier::external_body]
fn any() -> u64 { unimplemented!() }
/// some context of the page and a position in it
#[verifier::external_body]
fn any_spot<'a>(ps: Ghost<Set<Place>>) -> (r: Option<(&'a DomContext<'a>, ChildPosition)>)
    ensures r is Some ==> ps@.contains(place_of(*r.unwrap().0)),
{ unimplemented!() }
#[verifier::external_body]
fn any_node() -> Node { unimplemented!() }
#[verifier::external_body]
fn any_truth(g: Ghost<bool>) -> (r: bool)
    ensures r ==> g@,
{ unimplemented!() }
#[verifier::external_body]
fn any_place() -> Ghost<Place> { unimplemented!() }
/// additions and removals through any contexts of the page, and containers and lists coming and going, in any order
#[verifier::exec_allows_no_decreases_clause]
fn history(gs: &mut Groups, w: &mut World) {
    let ghost mut ps: Set<Place> = Set::empty();
    loop
        invariant page_ok(ps, *gs, *w), // [D01,D02]
    {
        let n = any();
        if n == 0 {
            let spot = any_spot(Ghost(ps));
            if let Some((d, p)) = spot {
                let x = any_node();
                // a node that is nowhere in the document, at a position nothing is rendered at
                let ghost fine = loose(w.doc@, x.id()) && d.free(p.segs(), *gs);
                let go = any_truth(Ghost(fine));
                if go {
                    let ghost (gs0, w0) = (*gs, *w);
                    let ghost e = place_of(*d);
                    assert(place_ok(e, *gs, *w));
                    d.add_child(p, x, gs, w);
                    proof { page_added(ps, e, gs0, w0, *gs, *w, d.at(p.segs()), x.id()); }
                }
            }
        } else if n == 1 {
            let spot = any_spot(Ghost(ps));
            if let Some((d, p)) = spot {
                let ghost e = place_of(*d);
                let ghost at = d.at(p.segs());
                // no list of the page has its end marker taken out before its items
                let ghost fine = (at.len() > 0 ==> at[0] < u32::MAX) && forall|f: Place| #[trigger] ps.contains(f) && f != e && f.container == e.container && f.reference is Some ==> !gone(gs.of(e.group), at, f.reference.unwrap());
                let go = any_truth(Ghost(fine));
                if go {
                    let ghost (gs0, w0) = (*gs, *w);
                    assert(place_ok(e, *gs, *w));
                    d.remove_child(p, gs, w);
                    proof { page_removed(ps, e, gs0, w0, *gs, *w, at); }
                }
            }
        } else if n == 2 {
            // a container or a list begins: its group is new and so empty
            let e = any_place();
            let ghost fine = (gs.of(e@.group).dom() =~= Set::empty() && w.kids(e@.container).no_duplicates() && (e@.reference is Some ==> w.kids(e@.container).contains(e@.reference.unwrap())) && forall|f: Place| #[trigger] ps.contains(f) ==> f.group != e@.group);
            let go = any_truth(Ghost(fine));
            if go {
                proof {
                    assert forall|x: int| !#[trigger] holds(gs.of(e@.group), x) by { if holds(gs.of(e@.group), x) { let k = choose|k: Seq<u32>| #[trigger] gs.of(e@.group).contains_key(k) && gs.of(e@.group)[k] == x; assert(gs.of(e@.group).dom().contains(k)); } }
                    assert forall|k: Seq<u32>| !#[trigger] gs.of(e@.group).contains_key(k) by { if gs.of(e@.group).contains_key(k) { assert(gs.of(e@.group).dom().contains(k)); } }
                    assert(place_ok(e@, *gs, *w));
                    ps = ps.insert(e@);
                }
            }
        } else {
            // one is over
            let e = any_place();
            proof { ps = ps.remove(e@); }
        }
    }
}
} // verus!
