verus! {
/// the nodes of a group are children of their container, in the order of their positions
pub open spec fn ordered(s: Seq<int>, g: Group) -> bool {
    &&& s.no_duplicates()
    &&& forall|k: Seq<u32>| #[trigger] g.contains_key(k) ==> s.contains(g[k])
    &&& forall|p: Seq<u32>, q: Seq<u32>| g.contains_key(p) && g.contains_key(q) && #[trigger] plt(p, q) ==> before(s, g[p], g[q])
}
/// all of them before the reference node
pub open spec fn all_before(s: Seq<int>, g: Group, r: int) -> bool {
    &&& s.contains(r)
    &&& forall|k: Seq<u32>| #[trigger] g.contains_key(k) ==> before(s, g[k], r)
}
impl<'p> DomContext<'p> {
    /// the group of this context mirrors the document
    spec fn tidy(&self, gs: Groups, w: World) -> bool {
        let (s, g) = (w.kids(self.container()), gs.of(self.group()));
        &&& ordered(s, g)
        &&& self.reference() is Some ==> all_before(s, g, self.reference().unwrap())
    }
    /// p is not taken, and no position has a segment that cannot be raised
    spec fn free(&self, p: Seq<u32>, gs: Groups) -> bool { !gs.of(self.group()).contains_key(self.at(p)) }
}
/// adding a node at p: it goes right before the next node of the group, or else right before the reference, or else to the end
spec fn added(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>, x: int, r: Option<int>) -> bool {
    &&& g1 == g0.insert(p, x)
    &&& exists|at: Option<int>| #[trigger] added_at(s0, g0, s1, p, x, r, at)
}
spec fn added_at(s0: Seq<int>, g0: Group, s1: Seq<int>, p: Seq<u32>, x: int, r: Option<int>, at: Option<int>) -> bool {
    &&& s1 == put(s0, x, at)
    &&& (exists|k: Seq<u32>| #[trigger] next_of(g0, p, k) && at == Some(g0[k])) || (none_from(g0, p) && at == r)
}
/// such an addition keeps the group in order
proof fn add_keeps(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>, x: int, r: Option<int>)
    requires added(s0, g0, s1, g1, p, x, r), ordered(s0, g0), !s0.contains(x), !g0.contains_key(p), r is Some ==> all_before(s0, g0, r.unwrap()),
    ensures ordered(s1, g1), r is Some ==> all_before(s1, g1, r.unwrap()),
{
    let at = choose|at: Option<int>| #[trigger] added_at(s0, g0, s1, p, x, r, at);
    put_facts(s0, x, at);
    assert forall|a: Seq<u32>, b: Seq<u32>| g1.contains_key(a) && g1.contains_key(b) && #[trigger] plt(a, b) implies before(s1, g1[a], g1[b]) by {
        if a != p && b != p { assert(before(s0, g0[a], g0[b])); }
        else if a == p && b == p { plt_irrefl(p); }
        else if exists|k: Seq<u32>| #[trigger] next_of(g0, p, k) && at == Some(g0[k]) {
            let k = choose|k: Seq<u32>| #[trigger] next_of(g0, p, k) && at == Some(g0[k]);
            if a == p {
                plt_total(p, b);
                assert(b == k || plt(k, b));
                if b != k { assert(before(s0, g0[k], g0[b])); }
            } else {
                plt_total(p, k); 
                if plt(p, k) { plt_trans(a, p, k); } else { assert(p == k); }
                assert(before(s0, g0[a], g0[k]));
            }
        } else {
            if a == p { assert(plt(b, p)); plt_total(p, b); }
            else if r is Some { assert(before(s0, g0[a], r.unwrap())); }
            else { assert(s0.contains(g0[a])); }
        }
    }
    if r is Some {
        assert forall|k: Seq<u32>| #[trigger] g1.contains_key(k) implies before(s1, g1[k], r.unwrap()) by {
            if k != p { assert(g0.contains_key(k)); assert(before(s0, g0[k], r.unwrap())); }
            else if exists|k: Seq<u32>| #[trigger] next_of(g0, p, k) && at == Some(g0[k]) {
                let k = choose|k: Seq<u32>| #[trigger] next_of(g0, p, k) && at == Some(g0[k]);
                assert(before(s0, g0[k], r.unwrap()));
            }
        }
    }
    assert forall|k: Seq<u32>| #[trigger] g1.contains_key(k) implies s1.contains(g1[k]) by { if k != p { assert(g0.contains_key(k)); assert(s0.contains(g0[k])); } }
}
/// removing at p: the nodes at p and below go, all others stay where they were
spec fn not_gone(g0: Group, p: Seq<u32>) -> spec_fn(int) -> bool { |x: int| !gone(g0, p, x) }
spec fn gone(g0: Group, p: Seq<u32>, x: int) -> bool { exists|k: Seq<u32>| #[trigger] g0.contains_key(k) && extends(k, p) && g0[k] == x }
spec fn kept(g0: Group, g1: Group, p: Seq<u32>) -> bool {
    &&& forall|k: Seq<u32>| #[trigger] g1.contains_key(k) <==> g0.contains_key(k) && !extends(k, p)
    &&& forall|k: Seq<u32>| g1.contains_key(k) ==> #[trigger] g1[k] == g0[k]
}
spec fn removed(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>) -> bool {
    &&& s1 == s0.filter(not_gone(g0, p))
    &&& kept(g0, g1, p)
}
/// nodes at different positions are different
proof fn distinct(s: Seq<int>, g: Group, p: Seq<u32>, q: Seq<u32>)
    requires ordered(s, g), g.contains_key(p), g.contains_key(q), p != q,
    ensures g[p] != g[q],
{
    plt_total(p, q);
    if plt(p, q) { assert(before(s, g[p], g[q])); } else { assert(before(s, g[q], g[p])); }
}
/// a restriction keeps the group in order
proof fn remove_keeps(s0: Seq<int>, g0: Group, s1: Seq<int>, g1: Group, p: Seq<u32>, r: Option<int>)
    requires removed(s0, g0, s1, g1, p), ordered(s0, g0), r is Some ==> all_before(s0, g0, r.unwrap()),
    ensures ordered(s1, g1), r is Some ==> all_before(s1, g1, r.unwrap()),
{
    let f = not_gone(g0, p);
    filter_facts(s0, f);
    assert forall|k: Seq<u32>| #[trigger] g1.contains_key(k) implies s1.contains(g1[k]) && f(g1[k]) by {
        assert(g0.contains_key(k)); 
        if gone(g0, p, g0[k]) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && extends(j, p) && g0[j] == g0[k]; distinct(s0, g0, j, k); }
    }
    assert forall|a: Seq<u32>, b: Seq<u32>| g1.contains_key(a) && g1.contains_key(b) && #[trigger] plt(a, b) implies before(s1, g1[a], g1[b]) by { assert(before(s0, g0[a], g0[b])); }
    if r is Some {
        assert(!gone(g0, p, r.unwrap())) by {
            if gone(g0, p, r.unwrap()) {
                let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && extends(j, p) && g0[j] == r.unwrap();
                assert(before(s0, g0[j], r.unwrap()));
            }
        }
        assert forall|k: Seq<u32>| #[trigger] g1.contains_key(k) implies before(s1, g1[k], r.unwrap()) by { assert(g0.contains_key(k)); assert(before(s0, g0[k], r.unwrap())); assert(s1.contains(g1[k])); }
    }
}
} // verus!
verus! {
/// in debug builds: an error in the console and a panic if there is one
#[verifier::external_body]
fn panic_if_duplicate_node(node: Option<Node>)
    requires node is None,
{ unimplemented!() }
/// one of the first k entries is x
spec fn not_taken(e: Seq<(Seq<u32>, int)>, k: int) -> spec_fn(int) -> bool { |x: int| !taken(e, k, x) }
spec fn taken(e: Seq<(Seq<u32>, int)>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] e[i]).1 == x }
/// x was in the group and is no longer
spec fn not_lost(g0: Group, g: Group) -> spec_fn(int) -> bool { |x: int| !lost(g0, g, x) }
spec fn lost(g0: Group, g: Group, x: int) -> bool { exists|k: Seq<u32>| #[trigger] g0.contains_key(k) && !g.contains_key(k) && g0[k] == x }
proof fn nothing_gone(s: Seq<int>, g: Group)
    ensures s.filter(not_lost(g, g)) == s,
{ keep_all(s, not_lost(g, g)); }
proof fn nothing_taken(s: Seq<int>, e: Seq<(Seq<u32>, int)>)
    ensures s.filter(not_taken(e, 0)) == s,
{ keep_all(s, not_taken(e, 0)); }
proof fn take_step(s0: Seq<int>, g0: Group, e0: Seq<(Seq<u32>, int)>, n: int)
    requires ordered(s0, g0), lists(e0, g0, |k: Seq<u32>| true), 0 <= n < e0.len(),
    ensures
        s0.filter(not_taken(e0, n)).contains(e0[n].1),
        without(s0.filter(not_taken(e0, n)), e0[n].1) == s0.filter(not_taken(e0, n + 1)),
{
    let x = e0[n].1;
    let f = not_taken(e0, n);
    filter_facts(s0, f);
    if taken(e0, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] e0[i]).1 == x; plt_irrefl(e0[i].0); distinct(s0, g0, e0[i].0, e0[n].0); }
    assert(g0.contains_key(e0[n].0));
    assert forall|y: int| !#[trigger] taken(e0, n + 1, y) == (!taken(e0, n, y) && y != x) by {
        if taken(e0, n + 1, y) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] e0[i]).1 == y; if i < n { assert(taken(e0, n, y)); } }
        if taken(e0, n, y) { let i = choose|i: int| 0 <= i < n && (#[trigger] e0[i]).1 == y; assert(taken(e0, n + 1, y)); }
        if y == x { assert(e0[n].1 == y); }
    }
    filter_filter(s0, f, other(x), not_taken(e0, n + 1));
}
proof fn all_taken(s0: Seq<int>, g0: Group, e0: Seq<(Seq<u32>, int)>, p: Seq<u32>)
    requires lists(e0, g0, |k: Seq<u32>| true), p.len() == 0,
    ensures s0.filter(not_taken(e0, e0.len() as int)) == s0.filter(not_gone(g0, p)),
{
    assert forall|x: int| #[trigger] taken(e0, e0.len() as int, x) == gone(g0, p, x) by {
        if taken(e0, e0.len() as int, x) { let i = choose|i: int| 0 <= i < e0.len() && (#[trigger] e0[i]).1 == x; assert(p =~= Seq::<u32>::empty()); extends_refl(e0[i].0); assert(g0.contains_key(e0[i].0)); }
        if gone(g0, p, x) { let k = choose|k: Seq<u32>| #[trigger] g0.contains_key(k) && extends(k, p) && g0[k] == x; assert(e0.contains((k, g0[k]))); let i = e0.index_of((k, g0[k])); assert(e0[i].1 == x); }
    }
    filter_ext(s0, not_taken(e0, e0.len() as int), not_gone(g0, p));
}
proof fn lose_step(s0: Seq<int>, g0: Group, g: Group, k: Seq<u32>)
    requires ordered(s0, g0), g.contains_key(k), forall|k: Seq<u32>| #[trigger] g.contains_key(k) ==> g0.contains_key(k) && g0[k] == g[k],
    ensures
        s0.filter(not_lost(g0, g)).contains(g[k]),
        without(s0.filter(not_lost(g0, g)), g[k]) == s0.filter(not_lost(g0, g.remove(k))),
{
    let x = g[k];
    let f = not_lost(g0, g);
    filter_facts(s0, f);
    assert(g0.contains_key(k));
    if lost(g0, g, x) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && !g.contains_key(j) && g0[j] == x; distinct(s0, g0, j, k); }
    assert forall|y: int| !#[trigger] lost(g0, g.remove(k), y) == (!lost(g0, g, y) && y != x) by {
        if lost(g0, g.remove(k), y) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && !g.remove(k).contains_key(j) && g0[j] == y; if j != k { assert(!g.contains_key(j)); assert(lost(g0, g, y)); } }
        if lost(g0, g, y) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && !g.contains_key(j) && g0[j] == y; assert(!g.remove(k).contains_key(j)); assert(lost(g0, g.remove(k), y)); }
        if y == x { assert(!g.remove(k).contains_key(k)); assert(lost(g0, g.remove(k), y)); }
    }
    filter_filter(s0, f, other(x), not_lost(g0, g.remove(k)));
}
proof fn all_lost(s0: Seq<int>, g0: Group, g: Group, p: Seq<u32>)
    requires
        forall|k: Seq<u32>| #[trigger] g.contains_key(k) ==> g0.contains_key(k) && g0[k] == g[k] && !extends(k, p),
        forall|k: Seq<u32>| #[trigger] g0.contains_key(k) && !g.contains_key(k) ==> extends(k, p),
    ensures s0.filter(not_lost(g0, g)) == s0.filter(not_gone(g0, p)),
{
    assert forall|x: int| #[trigger] lost(g0, g, x) == gone(g0, p, x) by {
        if lost(g0, g, x) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && !g.contains_key(j) && g0[j] == x; assert(extends(j, p)); }
        if gone(g0, p, x) { let j = choose|j: Seq<u32>| #[trigger] g0.contains_key(j) && extends(j, p) && g0[j] == x; assert(!g.contains_key(j)); }
    }
    filter_ext(s0, not_lost(g0, g), not_gone(g0, p));
}
//@fn ctx remove_children_here
//@opt type=BTreeMap<ChildPosition,Node>->PosMap;; world=remove_child;; ranges
//@spec
    requires
        ordered(old(w).kids(container.id()), old(tree)@),
        position.segs().len() > 0 ==> position.segs()[0] < u32::MAX,
    ensures
        removed(old(w).kids(container.id()), old(tree)@, final(w).kids(container.id()), final(tree)@, position.segs()), // [D02]
        final(w).doc@ == with_kids(old(w).doc@, container.id(), final(w).kids(container.id())), // [D02]
        final(w).log == old(w).log, final(w).dropping == old(w).dropping,
//@begin
    let ghost s0 = w.kids(container.id());
    let ghost g0 = tree@;
    let ghost p = position.segs();
    let ghost c = container.id();
    proof { nothing_gone(s0, g0); kids_twice(old(w).doc@, c, s0, s0); }
//@loopbefore 0
    let ghost e0 = __it1.e@;
    let ghost mut n = 0int;
    proof { nothing_taken(s0, e0); assert(e0.skip(0) =~= e0); }
//@loop 0
    invariant_except_break
        __it1.e@ == e0.skip(n),
    invariant
        0 <= n <= e0.len(), p.len() == 0, lists(e0, g0, |k: Seq<u32>| true), ordered(s0, g0), c == container.id(),
        s0 == old(w).kids(c),
        w.kids(c) == s0.filter(not_taken(e0, n)),
        w.doc@ == with_kids(old(w).doc@, c, w.kids(c)),
        w.log == old(w).log, w.dropping == old(w).dropping,
    ensures w.kids(c) == s0.filter(not_gone(g0, p)),
    decreases e0.len() - n,
//@loopstart 0
    let ghost wk = w.kids(c);
    proof { if n == e0.len() { all_taken(s0, g0, e0, p); } }
//@before =container.remove_child(child,w).unwrap_throw();
    proof { take_step(s0, g0, e0, n); assert(e0.skip(n)[0] == e0[n]); }
//@loopend 0
    proof { n = n + 1; kids_twice(old(w).doc@, c, wk, w.kids(c)); assert(__it1.e@ =~= e0.skip(n)); }
//@before tree.clear()
    proof {
        assert(kept(g0, Map::<Seq<u32>, int>::empty(), p)) by { assert forall|k: Seq<u32>| #[trigger] extends(k, p) by { assert(p =~= Seq::<u32>::empty()); extends_refl(k); } }
    }
//@loopbefore 1
    proof {
        assert forall|k: Seq<u32>| #[trigger] range.has(k) == extends(k, p) by { sibling_range(k, p); }
    }
//@loop 1
    invariant
        ordered(s0, g0), c == container.id(), s0 == old(w).kids(c), g0 == old(tree)@, p == position.segs(),
        forall|k: Seq<u32>| #[trigger] range.has(k) == extends(k, p),
        forall|k: Seq<u32>| #[trigger] tree@.contains_key(k) ==> g0.contains_key(k) && g0[k] == tree@[k],
        forall|k: Seq<u32>| #[trigger] g0.contains_key(k) && !tree@.contains_key(k) ==> extends(k, p),
        w.kids(c) == s0.filter(not_lost(g0, tree@)),
        w.doc@ == with_kids(old(w).doc@, c, w.kids(c)),
        w.log == old(w).log, w.dropping == old(w).dropping,
    ensures forall|k: Seq<u32>| #[trigger] tree@.contains_key(k) ==> !extends(k, p),
    decreases tree@.dom().len(),
//@loopstart 1
    let ghost t0 = tree@;
    let ghost wk = w.kids(c);
//@before =container.remove_child(child,w).unwrap_throw();
    proof { lose_step(s0, g0, t0, key.segs()); }
//@loopend 1
    proof { kids_twice(old(w).doc@, c, wk, w.kids(c)); }
//@end
    proof {
        if p.len() > 0 {
            all_lost(s0, g0, tree@, p);
            assert(kept(g0, tree@, p));
        }
    }
//@endfn
impl<'p> DomContext<'p> {
//@fn ctx DomContext::get_containing_node
//@spec
    ensures r.id() == self.container(), // [D01,D02]
    decreases self,
//@endfn
//@fn ctx DomContext::add_child
//@opt addparam=gs: &mut Groups;; addparam=w: &mut World;; passto=borrow_mut:gs;; passto=add_child:gs;; world=insert_before,add_child;; ranges;; opt=map
//@spec
    requires
        self.tidy(*old(gs), *old(w)), self.free(position.segs(), *old(gs)), loose(old(w).doc@, new_child.id()),
    ensures
        added(old(w).kids(self.container()), old(gs).of(self.group()), final(w).kids(self.container()), final(gs).of(self.group()), self.at(position.segs()), new_child.id(), self.reference()), // [D01]
        final(w).doc@ == with_kids(old(w).doc@, self.container(), final(w).kids(self.container())), // [D01]
        final(gs).g@ == with_group(old(gs).g@, self.group(), final(gs).of(self.group())), // [D01]
        self.tidy(*final(gs), *final(w)), // [D01]
        final(w).log == old(w).log, final(w).dropping == old(w).dropping,
    decreases self,
//@begin
    let ghost (s0, g0, d0, p, x, c, gid, r) = (w.kids(self.container()), gs.of(self.group()), w.doc@, self.at(position.segs()), new_child.id(), self.container(), self.group(), self.reference());
    proof {
        loose_detached(d0, x); assert(!d0(c).contains(x));
        assert forall|q: Seq<u32>| #[trigger] g0.contains_key(q) implies s0.contains(g0[q]) by {}
    }
//@end
    proof {
        let (s1, g1) = (w.kids(c), gs.of(gid));
        assert(forall|k: Seq<u32>| next_of(g0, p, k) ==> g0.contains_key(k));
        if !(self is Child) {
            let at = if exists|k: Seq<u32>| #[trigger] next_of(g0, p, k) { Some(g0[choose|k: Seq<u32>| #[trigger] next_of(g0, p, k)]) } else { r };
            assert forall|k: Seq<u32>, l: Seq<u32>| #[trigger] next_of(g0, p, k) && #[trigger] next_of(g0, p, l) implies k == l by { plt_total(k, l); }
            assert(s1 == put(s0, x, at));
            assert(added_at(s0, g0, s1, p, x, r, at));
            kids_twice(d0, c, s1, s1);
        }
        add_keeps(s0, g0, s1, g1, p, x, r);
    }
//@endfn
//@fn ctx DomContext::remove_child
//@opt addparam=gs: &mut Groups;; addparam=w: &mut World;; passto=borrow_mut:gs;; passto=remove_child:gs;; world=remove_children_here,remove_child;; expr=&mut group->&mut *group
//@spec
    requires
        self.tidy(*old(gs), *old(w)), self.at(position.segs()).len() > 0 ==> self.at(position.segs())[0] < u32::MAX,
    ensures
        removed(old(w).kids(self.container()), old(gs).of(self.group()), final(w).kids(self.container()), final(gs).of(self.group()), self.at(position.segs())), // [D02]
        final(w).doc@ == with_kids(old(w).doc@, self.container(), final(w).kids(self.container())), // [D02]
        final(gs).g@ == with_group(old(gs).g@, self.group(), final(gs).of(self.group())), // [D02]
        self.tidy(*final(gs), *final(w)), // [D01,D02]
        final(w).log == old(w).log, final(w).dropping == old(w).dropping,
    decreases self,
//@begin
    let ghost (s0, g0, p, c, gid, r) = (w.kids(self.container()), gs.of(self.group()), self.at(position.segs()), self.container(), self.group(), self.reference());
//@end
    proof { remove_keeps(s0, g0, w.kids(c), gs.of(gid), p, r); }
//@endfn
}
} // verus!
