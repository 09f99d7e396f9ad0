verus! {
// ======== slice iteration, written out ========
pub struct VIter<'a, T> { pub v: &'a Vec<T>, pub i: usize }
impl<'a, T> VIter<'a, T> {
    pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures
            final(self).v == old(self).v,
            old(self).i < old(self).v@.len() ==> r == Some(&old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).v@.len() ==> r.is_none() && final(self).i == old(self).i,
    {
        if self.i < self.v.len() { let r = &self.v[self.i]; self.i = self.i + 1; Some(r) } else { None }
    }
}
pub trait VxIter<T> { fn vx_iter<'a>(&'a self) -> VIter<'a, T>; }
impl<T> VxIter<T> for Vec<T> {
    fn vx_iter<'a>(&'a self) -> (r: VIter<'a, T>)
        ensures r.v == self, r.i == 0,
    { VIter { v: self, i: 0 } }
}
} // verus!
