//@file drp async_ui_web_core/src/dropping.rs
verus! {
/// a value of the unit struct DetachmentBlocker: all it has is its address, which no other live one shares
#[verifier::external_body]
pub struct DetachmentBlocker { x: u8 }
impl DetachmentBlocker {
    pub uninterp spec fn addr(&self) -> int;
    #[verifier::external_body]
    pub fn vx_addr(&self) -> (r: Ptr)
        ensures r.addr() == self.addr(), r.addr() != 0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_blocker() -> DetachmentBlocker { unimplemented!() }
impl DetachmentBlocker {
//@fn drp DetachmentBlocker::block_until_drop
//@opt addparam=w: &mut World;; tls=IS_DROPPING:(&mut w.dropping);; expr=self as *const DetachmentBlocker->self.vx_addr()
//@spec
    ensures
        // whoever blocks first owns the block
        r == old(w).blocked(), // [D02]
        final(w).blocked(), // [D02]
        old(w).blocked() ==> final(w).dropping == old(w).dropping, // [D02]
        !old(w).blocked() ==> final(w).dropping.p.addr() == self.addr(), // [D02]
        final(w).log == old(w).log, final(w).doc == old(w).doc,
//@endfn
//@fn drp DetachmentBlocker::Drop::drop
//@opt addparam=w: &mut World;; tls=IS_DROPPING:(&mut w.dropping);; expr=self as *const DetachmentBlocker->self.vx_addr();; call=null->vx_null;; call=eq->vx_ptr_eq
//@spec
    ensures
        // only the owner lifts the block
        old(w).dropping.p.addr() == old(self).addr() ==> !final(w).blocked(), // [D02]
        old(w).dropping.p.addr() != old(self).addr() ==> final(w).dropping == old(w).dropping, // [D02]
        final(self).addr() == old(self).addr(),
        final(w).log == old(w).log, final(w).doc == old(w).doc,
//@endfn
}
} // verus!
