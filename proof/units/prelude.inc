#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_snake_case, unreachable_code)]
use vstd::prelude::*;
use std::mem::replace;
use std::marker::PhantomData;
use std::rc::Rc;
verus! {
// ======== trusted contracts on the standard library and other surroundings ========
pub assume_specification<T> [std::mem::replace] (d: &mut T, s: T) -> (r: T)
    ensures r == *old(d), *final(d) == s;

pub fn vx_unreachable() -> !
    requires false,
{ loop invariant false decreases 0nat { } }

pub fn vx_assert(c: bool)
    requires c,
{}

pub fn bool_or(a: bool, b: bool) -> (r: bool)
    ensures r == (a || b),
{ a || b }

/// a half-open range of indices as an iterator (`a..b`)
pub struct VxRange { pub i: usize, pub e: usize }
pub fn vx_range(a: usize, b: usize) -> (r: VxRange)
    ensures r.i == a, r.e == b,
{ VxRange { i: a, e: b } }
impl VxRange {
    pub fn next(&mut self) -> (r: Option<usize>)
        ensures
            old(self).i < old(self).e ==> r == Some(old(self).i) && final(self).i == old(self).i + 1 && final(self).e == old(self).e,
            old(self).i >= old(self).e ==> r.is_none() && *final(self) == *old(self),
    {
        if self.i < self.e { let r = self.i; self.i = self.i + 1; Some(r) } else { None }
    }
}
} // verus!
