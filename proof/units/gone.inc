verus! {
/// scoped thread local: reading it when it is not set panics
fn vx_ctx<'a, 'p>(d: Option<&'a DomContext<'p>>) -> (r: &'a DomContext<'p>)
    requires d is Some,
    ensures r == d.unwrap(),
{ d.unwrap() }
/// what happened after l0 had nothing to do with this group
spec fn elsewhere(l0: Seq<Ev>, l1: Seq<Ev>, g: int) -> bool {
    &&& l0.is_prefix_of(l1)
    &&& forall|i: int| l0.len() <= i < l1.len() ==> !((#[trigger] l1[i]) is Gone && l1[i]->Gone_0 == g) && !(l1[i] is Came && l1[i]->Came_0 == g)
}
proof fn elsewhere_trans(l0: Seq<Ev>, l1: Seq<Ev>, l2: Seq<Ev>, g: int)
    requires elsewhere(l0, l1, g), elsewhere(l1, l2, g),
    ensures elsewhere(l0, l2, g),
{ assert forall|i: int| l0.len() <= i < l2.len() implies !((#[trigger] l2[i]) is Gone && l2[i]->Gone_0 == g) && !(l2[i] is Came && l2[i]->Came_0 == g) by { if i < l1.len() { assert(l1[i] == l2[i]); } } }
impl DetachmentBlocker {
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World)
        ensures
            old(w).dropping.p.addr() == old(self).addr() ==> !final(w).blocked(),
            old(w).dropping.p.addr() != old(self).addr() ==> final(w).dropping == old(w).dropping,
            final(w).log == old(w).log,
    { self.drop(w) }
}
} // verus!
