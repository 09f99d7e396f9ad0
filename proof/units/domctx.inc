//@file ctx async_ui_web_core/src/context.rs
verus! {
/// web_sys::Node: a handle, told apart by the node it is for
#[verifier::external_body]
pub struct Node { x: u8 }
impl Node {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Node)
        ensures r.id() == self.id(),
    { unimplemented!() }
}
/// RefCell<BTreeMap<ChildPosition, Node>>: which cell it is
#[verifier::external_body]
pub struct NodeGroup { x: u8 }
impl NodeGroup { pub uninterp spec fn id(&self) -> int; }
//@enum ctx DomContext
//@endfn
impl<'p> DomContext<'p> {
    /// where things rendered in this context go, and at what position of which group
    spec fn container(&self) -> int decreases self {
        match self { DomContext::Container { container, .. } => container.id(), DomContext::Sibling { parent, .. } => parent.container(), DomContext::Child { parent, .. } => parent.container() }
    }
    spec fn group(&self) -> int decreases self {
        match self { DomContext::Container { group, .. } => group.id(), DomContext::Sibling { group, .. } => group.id(), DomContext::Child { parent, .. } => parent.group() }
    }
    spec fn reference(&self) -> Option<int> decreases self {
        match self { DomContext::Container { .. } => None, DomContext::Sibling { reference, .. } => Some(reference.id()), DomContext::Child { parent, .. } => parent.reference() }
    }
    spec fn at(&self, p: Seq<u32>) -> Seq<u32> decreases self {
        match self { DomContext::Child { parent, index } => parent.at(p.push(*index)), _ => p }
    }
}
} // verus!
