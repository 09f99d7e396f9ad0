//@include prelude.inc
//@include waker.inc
//@include task.inc
//@include domctx.inc
//@file pos async_ui_web_core/src/position.rs
//@contracts on
//@include dropping.inc
//@contracts off
//@include gone.inc
//@file cnf async_ui_web_core/src/node_container.rs
//@file snf async_ui_web_core/src/node_sibling.rs
verus! {
#[verifier::external_body]
pub struct ChildPosition { x: u8 }
impl ChildPosition {
    pub uninterp spec fn segs(&self) -> Seq<u32>;
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r.segs() == Seq::<u32>::empty(),
    { unimplemented!() }
}
// ======== adding and removing, as events (what they do to the document is proved in unit dom) ========
impl<'p> DomContext<'p> {
    #[verifier::external_body]
    fn add_child(&self, position: ChildPosition, node: Node, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(Ev::Came(self.group(), self.at(position.segs()), node.id())), final(w).dropping == old(w).dropping,
    { unimplemented!() }
    #[verifier::external_body]
    fn remove_child(&self, position: ChildPosition, w: &mut World)
        ensures final(w).log@ == old(w).log@.push(Ev::Gone(self.group(), self.at(position.segs()))), final(w).dropping == old(w).dropping,
    { unimplemented!() }
}
/// nothing is in the group, going by what came and went
pub uninterp spec fn vacant(g: int, l: Seq<Ev>) -> bool;
pub struct PosView { pub v: bool }
impl PosView { pub fn is_empty(&self) -> (r: bool) ensures r == self.v, { self.v } }
impl NodeGroup {
    #[verifier::external_body]
    pub fn borrow(&self, w: &World) -> (r: PosView)
        ensures r.v == vacant(self.id(), w.log@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_group() -> NodeGroup { unimplemented!() }
// ======== the future inside ========
trait Future: Sized {
    type Output;
    spec fn out(&self) -> Option<Self::Output>;
    /// it belongs in this rendering context
    spec fn home(&self, d: DomContext) -> bool;
    /// this is not one of the groups of the elements inside it
    spec fn apart(&self, g: int) -> bool;
    fn poll(&mut self, cx: &mut Context<'_>, dom: &DomContext, w: &mut World) -> (r: Poll<Self::Output>)
        requires old(self).out().is_none(), old(self).home(*dom),
        ensures
            final(self).out() == (match r { Poll::Ready(v) => Some(v), Poll::Pending => None }),
            forall|d: DomContext| #[trigger] final(self).home(d) == old(self).home(d),
            old(w).log@.is_prefix_of(final(w).log@),
            final(w).dropping == old(w).dropping;
    /// dropping it: under a block, it takes nothing out of where it was rendered; otherwise it leaves no block behind
    fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World)
        requires !old(w).blocked() ==> dom is Some,
        ensures
            old(w).blocked() ==> final(w).dropping == old(w).dropping,
            old(w).blocked() ==> forall|g: int| #[trigger] old(self).apart(g) ==> elsewhere(old(w).log@, final(w).log@, g),
            !old(w).blocked() ==> !final(w).blocked();
}
//@enum cnf AddSelfMode
//@endfn
//@struct cnf ContainerNodeFuture
//@opt generics=<C: Future>
//@endfn
//@struct snf SiblingNodeFuture
//@opt generics=<C: Future>
//@endfn
// ======== fields with nothing to do when dropped ========
macro_rules! plain { ($($t:ty),*) => { verus! { $(impl $t { fn vx_gone(&mut self, dom: Option<&DomContext>, w: &mut World) ensures *final(w) == *old(w), {} })* } } }
plain!(Node, NodeGroup, AddSelfMode);
impl<C: Future> ContainerNodeFuture<C> {
    spec fn inner(&self) -> DomContext<'_> { DomContext::Container { group: &self.group, container: &self.container } }
    /// its group and its blocker are its own
    spec fn own(&self) -> bool { self.child_future.apart(self.group.id()) }
//@fn cnf ContainerNodeFuture::new
//@opt expr=DetachmentBlocker->vx_blocker();; expr=Default::default()->vx_group()
//@spec
    ensures r.child_future == child_future, r.container == node, r.add_self is ShouldAdd, // [D01,D02]
//@endfn
//@fn cnf ContainerNodeFuture::new_root
//@opt expr=DetachmentBlocker->vx_blocker();; expr=Default::default()->vx_group()
//@spec
    ensures r.child_future == child_future, r.container == node, r.add_self is ShouldNotAdd, // [D01,D02]
//@endfn
//@fn cnf ContainerNodeFuture::Future::poll
//@opt pin;; addparam=dom: &DomContext;; world=add_child,poll;; tls=DOM_CONTEXT:dom;; passto=poll:dom;; ret=Poll<C::Output>
//@opt subst=this.group->(&self.group);; subst=this.container->(&self.container)
//@spec
    requires old(self).child_future.out().is_none(), old(self).child_future.home(old(self).inner()),
    ensures
        // the node is put where this future is, once, before anything else
        ({ let l = if old(self).add_self is ShouldAdd { old(w).log@.push(Ev::Came(dom.group(), dom.at(Seq::empty()), old(self).container.id())) } else { old(w).log@ };
           l.is_prefix_of(final(w).log@) }), // [D01]
        final(self).add_self == (if old(self).add_self is ShouldAdd { AddSelfMode::Added } else { old(self).add_self }), // [D01,D02]
        final(self).container == old(self).container, final(self).group == old(self).group, final(self).drop == old(self).drop,
        // what is inside is rendered inside
        final(self).child_future.home(final(self).inner()), // [D01]
        final(self).child_future.out() == (match r { Poll::Ready(v) => Some(v), Poll::Pending => None }),
        final(w).dropping == old(w).dropping, // [D02]
//@endfn
//@fn cnf ContainerNodeFuture::PinnedDrop::drop
//@opt pin;; addparam=dom: Option<&DomContext>;; world=remove_child,block_until_drop;; tls=DOM_CONTEXT:vx_ctx(dom)
//@opt subst=this.group->(&self.group);; subst=this.container->(&self.container)
//@spec
    requires old(self).add_self is Added && !old(w).blocked() ==> dom is Some,
    ensures
        final(w).log@ == (
            if !(old(self).add_self is Added) { old(w).log@.push(Ev::Gone(old(self).group.id(), Seq::empty())) } // [D02]
            else if !old(w).blocked() { old(w).log@.push(Ev::Gone(dom.unwrap().group(), dom.unwrap().at(Seq::empty()))) } // [D02]
            else { old(w).log@ }), // [D02]
        // whatever is inside does not take anything out itself
        final(w).blocked(), old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> final(w).dropping.p.addr() == old(self).drop.addr(), // [D02]
        *final(self) == *old(self),
//@endfn
//@glue cnf ContainerNodeFuture
//@opt params=dom: Option<&DomContext>, w: &mut World
//@spec
    requires
        old(self).own(), old(self).add_self is Added && !old(w).blocked() ==> dom is Some,
        // no two live blockers at one address
        old(w).blocked() ==> old(w).dropping.p.addr() != old(self).drop.addr(),
    ensures
        // its own node, or else everything inside it, goes at once ...
        !(old(self).add_self is Added) ==> old(w).log@.push(Ev::Gone(old(self).group.id(), Seq::empty())).is_prefix_of(final(w).log@), // [D02]
        old(self).add_self is Added && !old(w).blocked() ==> old(w).log@.push(Ev::Gone(dom.unwrap().group(), dom.unwrap().at(Seq::empty()))).is_prefix_of(final(w).log@), // [D02]
        // ... and nothing else of where it was rendered, and nothing at all if what contains it goes
        forall|g: int| #[trigger] old(self).child_future.apart(g) ==> elsewhere(
            (if !(old(self).add_self is Added) { old(w).log@.push(Ev::Gone(old(self).group.id(), Seq::empty())) } else if !old(w).blocked() { old(w).log@.push(Ev::Gone(dom.unwrap().group(), dom.unwrap().at(Seq::empty()))) } else { old(w).log@ }),
            final(w).log@, g), // [D02]
        // later drops are unaffected
        old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> !final(w).blocked(), // [D02]
//@endfn
}
impl<C: Future> SiblingNodeFuture<C> {
//@fn snf SiblingNodeFuture::new
//@opt expr=DetachmentBlocker->vx_blocker();; expr=Default::default()->vx_group()
//@spec
    ensures r.child_future == child_future, r.reference == sibling, // [D01,D02]
//@endfn
//@fn snf SiblingNodeFuture::Future::poll
//@opt pin;; addparam=dom: &DomContext;; world=poll;; tls=DOM_CONTEXT:dom;; passto=poll:dom;; ret=Poll<C::Output>
//@opt subst=this.group->(&self.group);; subst=this.reference->(&self.reference)
//@spec
    requires
        old(self).child_future.out().is_none(),
        old(self).child_future.home(DomContext::Sibling { parent: dom, group: &old(self).group, reference: &old(self).reference }),
    ensures
        final(self).child_future.home(DomContext::Sibling { parent: dom, group: &final(self).group, reference: &final(self).reference }), // [D01]
        final(self).reference == old(self).reference, final(self).group == old(self).group, final(self).drop == old(self).drop,
        final(self).child_future.out() == (match r { Poll::Ready(v) => Some(v), Poll::Pending => None }),
        old(w).log@.is_prefix_of(final(w).log@), final(w).dropping == old(w).dropping, // [D02]
//@endfn
//@fn snf SiblingNodeFuture::PinnedDrop::drop
//@opt pin;; addparam=dom: Option<&DomContext>;; world=remove_child,block_until_drop;; tls=DOM_CONTEXT:vx_ctx(dom);; passto=borrow:&*w
//@opt subst=this.group->(&self.group);; subst=this.reference->(&self.reference)
//@spec
    requires !old(w).blocked() && !vacant(old(self).group.id(), old(w).log@) ==> dom is Some,
    ensures
        final(w).log@ == (if !old(w).blocked() && !vacant(old(self).group.id(), old(w).log@) { old(w).log@.push(Ev::Gone(old(self).group.id(), Seq::empty())) } else { old(w).log@ }), // [D02]
        final(w).blocked(), old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> final(w).dropping.p.addr() == old(self).drop.addr(), // [D02]
        *final(self) == *old(self),
//@endfn
//@glue snf SiblingNodeFuture
//@opt params=dom: Option<&DomContext>, w: &mut World
//@spec
    requires
        !old(w).blocked() && !vacant(old(self).group.id(), old(w).log@) ==> dom is Some,
        // no two live blockers at one address
        old(w).blocked() ==> old(w).dropping.p.addr() != old(self).drop.addr(),
    ensures
        forall|g: int| #[trigger] old(self).child_future.apart(g) ==> elsewhere(
            (if !old(w).blocked() && !vacant(old(self).group.id(), old(w).log@) { old(w).log@.push(Ev::Gone(old(self).group.id(), Seq::empty())) } else { old(w).log@ }),
            final(w).log@, g), // [D02]
        old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> !final(w).blocked(), // [D02]
//@endfn
}
} // verus!
fn main() {}
