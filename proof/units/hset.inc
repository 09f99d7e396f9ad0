verus! {
// ======== keys, sets of them and lists of them ========
/// a key: a clone of it is equal to it (Eq is equality, Hash agrees with it)
pub trait VxKey: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
/// FnMut(&K) -> F and Fn(&K) -> F
pub trait VxRender<K, F>: Sized {
    spec fn calls(&self) -> Seq<(K, F)>;
    fn call(&mut self, k: &K) -> (r: F)
        ensures final(self).calls() == old(self).calls().push((*k, r));
}
/// std's HashSet<&K>
#[verifier::reject_recursive_types(K)]
#[verifier::external_body]
pub struct HashSet<'a, K> { m: std::collections::HashSet<&'a K> }
impl<'a, K> HashSet<'a, K> {
    pub uninterp spec fn view(&self) -> Set<K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: &'a K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(*k), r == !old(self)@.contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self, k: &K) -> (r: Option<&'a K>)
        ensures final(self)@ == old(self)@.remove(*k), r is Some <==> old(self)@.contains(*k), r is Some ==> *r.unwrap() == *k,
    { unimplemented!() }
    /// the keys, in some order
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: VxDrain<'a, K>)
        ensures final(self)@ == Set::<K>::empty(), r.left@.no_duplicates(), forall|k: K| #[trigger] r.left@.contains(k) <==> old(self)@.contains(k),
    { unimplemented!() }
}
pub struct VxDrain<'a, K> { pub left: Ghost<Seq<K>>, pub of: PhantomData<&'a K> }
impl<'a, K> VxDrain<'a, K> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures
            r is Some <==> old(self).left@.len() > 0,
            r is Some ==> *r.unwrap() == old(self).left@[0] && final(self).left@ == old(self).left@.drop_first(),
            r is None ==> final(self).left@ == old(self).left@,
    { unimplemented!() }
}
/// slice::Iter and Peekable of it
pub struct VxPeek<'a, K> { pub v: &'a Vec<K>, pub i: usize }
impl<'a, K> VxPeek<'a, K> {
    pub fn peek(&self) -> (r: Option<&'a K>)
        ensures self.i < self.v@.len() ==> r == Some(&self.v@[self.i as int]), self.i >= self.v@.len() ==> r is None,
    { if self.i < self.v.len() { Some(&self.v[self.i]) } else { None } }
    pub fn next(&mut self) -> (r: Option<&'a K>)
        ensures
            final(self).v == old(self).v,
            old(self).i < old(self).v@.len() ==> r == Some(&old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            old(self).i >= old(self).v@.len() ==> r is None && final(self).i == old(self).i,
    { if self.i < self.v.len() { let r = &self.v[self.i]; self.i = self.i + 1; Some(r) } else { None } }
    #[verifier::external_body]
    pub fn next_if_eq(&mut self, k: &&K) -> (r: Option<&'a K>)
        ensures
            final(self).v == old(self).v,
            r is Some <==> old(self).i < old(self).v@.len() && old(self).v@[old(self).i as int] == **k,
            r is Some ==> r == Some(&old(self).v@[old(self).i as int]) && final(self).i == old(self).i + 1,
            r is None ==> final(self).i == old(self).i,
    { unimplemented!() }
}
pub struct VxBack<'a, K> { pub v: &'a Vec<K>, pub n: usize }
impl<'a, K> VxBack<'a, K> {
    pub fn next(&mut self) -> (r: Option<&'a K>)
        requires old(self).n <= old(self).v@.len(),
        ensures
            final(self).v == old(self).v,
            old(self).n > 0 ==> r == Some(&old(self).v@[old(self).n - 1]) && final(self).n == old(self).n - 1,
            old(self).n == 0 ==> r is None && final(self).n == 0,
    { if self.n > 0 { self.n = self.n - 1; Some(&self.v[self.n]) } else { None } }
}
pub trait VxList<K> {
    fn iter<'a>(&'a self) -> VxPeek<'a, K>;
    fn vx_peekable<'a>(&'a self) -> VxPeek<'a, K>;
    fn vx_back<'a>(&'a self) -> VxBack<'a, K>;
    fn vx_set<'a>(&'a self) -> HashSet<'a, K>;
}
impl<K> VxList<K> for Vec<K> {
    fn iter<'a>(&'a self) -> (r: VxPeek<'a, K>)
        ensures r.v == self, r.i == 0,
    { VxPeek { v: self, i: 0 } }
    fn vx_peekable<'a>(&'a self) -> (r: VxPeek<'a, K>)
        ensures r.v == self, r.i == 0,
    { VxPeek { v: self, i: 0 } }
    fn vx_back<'a>(&'a self) -> (r: VxBack<'a, K>)
        ensures r.v == self, r.n == self@.len(),
    { VxBack { v: self, n: self.len() } }
    #[verifier::external_body]
    fn vx_set<'a>(&'a self) -> (r: HashSet<'a, K>)
        ensures forall|k: K| #[trigger] r@.contains(k) <==> self@.contains(k),
    { unimplemented!() }
}
} // verus!
