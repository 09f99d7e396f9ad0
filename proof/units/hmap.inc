verus! {
// ======== trusted contract on std's hash map and set, for keys whose Eq is equality, whose Hash agrees with it, and
// which borrow as themselves ========
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
#[verifier::external_body]
pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r.unwrap() == self@[*k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.dom().contains(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.insert(k, v),
            r is Some <==> old(self)@.dom().contains(k), r is Some ==> r.unwrap() == old(self)@[k],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures
            final(self)@ == old(self)@.remove(*k),
            r is Some <==> old(self)@.dom().contains(*k), r is Some ==> r.unwrap() == old(self)@[*k],
    { unimplemented!() }
    /// the keys, in some order
    #[verifier::external_body]
    pub fn vx_turns(&self) -> (r: VxTurns<K>)
        ensures r.left@.no_duplicates(), forall|k: K| #[trigger] r.left@.contains(k) <==> self@.dom().contains(k),
    { unimplemented!() }
    /// the entry whose turn it is
    #[verifier::external_body]
    pub fn vx_turn(&self, t: &VxTurns<K>) -> (r: Option<(&K, &V)>)
        ensures r is Some <==> t.left@.len() > 0, r is Some ==> *r.unwrap().0 == t.left@[0] && *r.unwrap().1 == self@[t.left@[0]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_kept(&mut self, t: &mut VxTurns<K>, keep: bool)
        requires old(t).left@.len() > 0,
        ensures
            final(t).left@ == old(t).left@.drop_first(),
            keep ==> final(self)@ == old(self)@,
            !keep ==> final(self)@ == old(self)@.remove(old(t).left@[0]),
    { unimplemented!() }
}
/// the keys whose turn is still to come in a `retain`
pub struct VxTurns<K> { pub left: Ghost<Seq<K>> }
} // verus!
