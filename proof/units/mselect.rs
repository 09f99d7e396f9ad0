//@include prelude.inc
//@file sel gen:select_expanded.rs
verus! {
// ---- futures, handlers and the race (trusted) ----
/// what a future gives, and what a handler makes of it
pub struct VOut { pub o: Ghost<int> }
pub struct VRes { pub o: Ghost<int> }
/// what the future of branch k gives
pub uninterp spec fn out(k: int) -> int;
/// what the handler of branch k makes of v
pub uninterp spec fn res(k: int, v: int) -> int;
pub struct VFut { pub k: Ghost<int> }
pub struct World {
    /// the number of branches written, and the branch whose future is ready first
    pub total: Ghost<int>,
    pub first: Ghost<int>,
    /// the futures made that were not dropped, those that completed, the handlers run and what they were given
    pub live: Ghost<bool>,
    pub completed: Ghost<Seq<int>>,
    pub handled: Ghost<Seq<(int, int)>>,
}
impl World {
    pub open spec fn fresh(&self, n: int) -> bool {
        self.total@ == n && 0 <= self.first@ < n && !self.live@ && self.completed@.len() == 0 && self.handled@.len() == 0
    }
    /// the expression for the future of branch k
    #[verifier::external_body]
    pub fn future(&mut self, k: usize) -> (r: VFut)
        ensures r.k@ == k, *final(self) == (World { live: Ghost(true), ..*old(self) }),
    { unimplemented!() }
    /// the race of all branches: it ends with the branch whose future is the first to be ready, in the order they are given
    #[verifier::external_body]
    pub fn vx_race(&mut self, n: usize) -> (r: usize)
        requires n == old(self).total@, old(self).completed@.len() == 0, old(self).handled@.len() == 0, // [M02]
        ensures r == old(self).first@, *final(self) == *old(self),
    { unimplemented!() }
    /// when it ends, what is left of every branch is dropped
    #[verifier::external_body]
    pub fn vx_raced(&mut self)
        ensures *final(self) == (World { live: Ghost(false), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_await(&mut self, f: VFut) -> (r: VOut)
        ensures r.o@ == out(f.k@), *final(self) == (World { completed: Ghost(old(self).completed@.push(f.k@)), ..*old(self) }),
    { unimplemented!() }
    /// the handler of branch k
    #[verifier::external_body]
    pub fn handle(&mut self, k: usize, v: VOut) -> (r: VRes)
        requires !old(self).live@, // [M02]
        ensures r.o@ == res(k as int, v.o@), *final(self) == (World { handled: Ghost(old(self).handled@.push((k as int, v.o@))), ..*old(self) }),
    { unimplemented!() }
    /// the future of one branch completed and no other, its handler ran, once, with what it gave, and this is what it made
    pub open spec fn selected(&self, r: VRes) -> bool {
        &&& self.completed@ =~= seq![self.first@] && self.handled@ =~= seq![(self.first@, out(self.first@))] && !self.live@
        &&& r.o@ == res(self.first@, out(self.first@))
    }
}
// ---- what the macro makes of each use ----
pub mod s1_comma {
use super::*;
//@fn sel select_1_comma
//@opt sig=pub fn select_1_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(1),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s1_last {
use super::*;
//@fn sel select_1_last
//@opt sig=pub fn select_1_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(1),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s1_block {
use super::*;
//@fn sel select_1_block
//@opt sig=pub fn select_1_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(1),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s1_mixed {
use super::*;
//@fn sel select_1_mixed
//@opt sig=pub fn select_1_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(1),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s2_comma {
use super::*;
//@fn sel select_2_comma
//@opt sig=pub fn select_2_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(2),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s2_last {
use super::*;
//@fn sel select_2_last
//@opt sig=pub fn select_2_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(2),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s2_block {
use super::*;
//@fn sel select_2_block
//@opt sig=pub fn select_2_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(2),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s2_mixed {
use super::*;
//@fn sel select_2_mixed
//@opt sig=pub fn select_2_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(2),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s3_comma {
use super::*;
//@fn sel select_3_comma
//@opt sig=pub fn select_3_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(3),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s3_last {
use super::*;
//@fn sel select_3_last
//@opt sig=pub fn select_3_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(3),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s3_block {
use super::*;
//@fn sel select_3_block
//@opt sig=pub fn select_3_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(3),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s3_mixed {
use super::*;
//@fn sel select_3_mixed
//@opt sig=pub fn select_3_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(3),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s4_comma {
use super::*;
//@fn sel select_4_comma
//@opt sig=pub fn select_4_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(4),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s4_last {
use super::*;
//@fn sel select_4_last
//@opt sig=pub fn select_4_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(4),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s4_block {
use super::*;
//@fn sel select_4_block
//@opt sig=pub fn select_4_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(4),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s4_mixed {
use super::*;
//@fn sel select_4_mixed
//@opt sig=pub fn select_4_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(4),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s5_comma {
use super::*;
//@fn sel select_5_comma
//@opt sig=pub fn select_5_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(5),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s5_last {
use super::*;
//@fn sel select_5_last
//@opt sig=pub fn select_5_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(5),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s5_block {
use super::*;
//@fn sel select_5_block
//@opt sig=pub fn select_5_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(5),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s5_mixed {
use super::*;
//@fn sel select_5_mixed
//@opt sig=pub fn select_5_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(5),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s6_comma {
use super::*;
//@fn sel select_6_comma
//@opt sig=pub fn select_6_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(6),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s6_last {
use super::*;
//@fn sel select_6_last
//@opt sig=pub fn select_6_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(6),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s6_block {
use super::*;
//@fn sel select_6_block
//@opt sig=pub fn select_6_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(6),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s6_mixed {
use super::*;
//@fn sel select_6_mixed
//@opt sig=pub fn select_6_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(6),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s7_comma {
use super::*;
//@fn sel select_7_comma
//@opt sig=pub fn select_7_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(7),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s7_last {
use super::*;
//@fn sel select_7_last
//@opt sig=pub fn select_7_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(7),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s7_block {
use super::*;
//@fn sel select_7_block
//@opt sig=pub fn select_7_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(7),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s7_mixed {
use super::*;
//@fn sel select_7_mixed
//@opt sig=pub fn select_7_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(7),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s8_comma {
use super::*;
//@fn sel select_8_comma
//@opt sig=pub fn select_8_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(8),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s8_last {
use super::*;
//@fn sel select_8_last
//@opt sig=pub fn select_8_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(8),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s8_block {
use super::*;
//@fn sel select_8_block
//@opt sig=pub fn select_8_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(8),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s8_mixed {
use super::*;
//@fn sel select_8_mixed
//@opt sig=pub fn select_8_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(8),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s9_comma {
use super::*;
//@fn sel select_9_comma
//@opt sig=pub fn select_9_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(9),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s9_last {
use super::*;
//@fn sel select_9_last
//@opt sig=pub fn select_9_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(9),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s9_block {
use super::*;
//@fn sel select_9_block
//@opt sig=pub fn select_9_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(9),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s9_mixed {
use super::*;
//@fn sel select_9_mixed
//@opt sig=pub fn select_9_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(9),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s10_comma {
use super::*;
//@fn sel select_10_comma
//@opt sig=pub fn select_10_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(10),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s10_last {
use super::*;
//@fn sel select_10_last
//@opt sig=pub fn select_10_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(10),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s10_block {
use super::*;
//@fn sel select_10_block
//@opt sig=pub fn select_10_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(10),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s10_mixed {
use super::*;
//@fn sel select_10_mixed
//@opt sig=pub fn select_10_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(10),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s11_comma {
use super::*;
//@fn sel select_11_comma
//@opt sig=pub fn select_11_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(11),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s11_last {
use super::*;
//@fn sel select_11_last
//@opt sig=pub fn select_11_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(11),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s11_block {
use super::*;
//@fn sel select_11_block
//@opt sig=pub fn select_11_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(11),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s11_mixed {
use super::*;
//@fn sel select_11_mixed
//@opt sig=pub fn select_11_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(11),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s12_comma {
use super::*;
//@fn sel select_12_comma
//@opt sig=pub fn select_12_comma(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(12),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s12_last {
use super::*;
//@fn sel select_12_last
//@opt sig=pub fn select_12_last(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(12),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s12_block {
use super::*;
//@fn sel select_12_block
//@opt sig=pub fn select_12_block(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(12),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
pub mod s12_mixed {
use super::*;
//@fn sel select_12_mixed
//@opt sig=pub fn select_12_mixed(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh(12),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}
} // verus!
fn main() {}
