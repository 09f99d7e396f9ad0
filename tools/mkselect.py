#!/usr/bin/env python3
"""Writes proof/units/mselect.rs: one contract for every use of select! that proof/selx expands."""
import os, sys
sys.stdout = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "proof", "units", "mselect.rs"), "w")
print('''//@include prelude.inc
//@file sel gen:select_expanded.rs
verus! {
// ---- futures, handlers and the race (trusted) ----
/// what a future gives, and what a handler makes of it
pub struct VOut { pub o: Ghost<int> }
pub struct VRes { pub o: Ghost<int> }
/// what the future of branch k gives
pub uninterp spec fn out(k: int) -> int;
/// what the handler of branch k makes of v
pub uninterp spec fn res(k: int, v: int) -> int;
pub struct VFut { pub k: Ghost<int> }
pub struct World {
    /// the number of branches written, and the branch whose future is ready first
    pub total: Ghost<int>,
    pub first: Ghost<int>,
    /// the futures made that were not dropped, those that completed, the handlers run and what they were given
    pub live: Ghost<bool>,
    pub completed: Ghost<Seq<int>>,
    pub handled: Ghost<Seq<(int, int)>>,
}
impl World {
    pub open spec fn fresh(&self, n: int) -> bool {
        self.total@ == n && 0 <= self.first@ < n && !self.live@ && self.completed@.len() == 0 && self.handled@.len() == 0
    }
    /// the expression for the future of branch k
    #[verifier::external_body]
    pub fn future(&mut self, k: usize) -> (r: VFut)
        ensures r.k@ == k, *final(self) == (World { live: Ghost(true), ..*old(self) }),
    { unimplemented!() }
    /// the race of all branches: it ends with the branch whose future is the first to be ready, in the order they are given
    #[verifier::external_body]
    pub fn vx_race(&mut self, n: usize) -> (r: usize)
        requires n == old(self).total@, old(self).completed@.len() == 0, old(self).handled@.len() == 0, // [M02]
        ensures r == old(self).first@, *final(self) == *old(self),
    { unimplemented!() }
    /// when it ends, what is left of every branch is dropped
    #[verifier::external_body]
    pub fn vx_raced(&mut self)
        ensures *final(self) == (World { live: Ghost(false), ..*old(self) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_await(&mut self, f: VFut) -> (r: VOut)
        ensures r.o@ == out(f.k@), *final(self) == (World { completed: Ghost(old(self).completed@.push(f.k@)), ..*old(self) }),
    { unimplemented!() }
    /// the handler of branch k
    #[verifier::external_body]
    pub fn handle(&mut self, k: usize, v: VOut) -> (r: VRes)
        requires !old(self).live@, // [M02]
        ensures r.o@ == res(k as int, v.o@), *final(self) == (World { handled: Ghost(old(self).handled@.push((k as int, v.o@))), ..*old(self) }),
    { unimplemented!() }
    /// the future of one branch completed and no other, its handler ran, once, with what it gave, and this is what it made
    pub open spec fn selected(&self, r: VRes) -> bool {
        &&& self.completed@ =~= seq![self.first@] && self.handled@ =~= seq![(self.first@, out(self.first@))] && !self.live@
        &&& r.o@ == res(self.first@, out(self.first@))
    }
}
// ---- what the macro makes of each use ----''')
for n in range(1,13):
    for f in "comma last block mixed".split():
        print(f'''pub mod s{n}_{f} {{
use super::*;
//@fn sel select_{n}_{f}
//@opt sig=pub fn select_{n}_{f}(w: &mut World) -> (r: VRes);; raced
//@spec
    requires old(w).fresh({n}),
    ensures final(w).first@ == old(w).first@, final(w).selected(r), // [M02]
//@endfn
}}''')
print('''} // verus!
fn main() {}''')
