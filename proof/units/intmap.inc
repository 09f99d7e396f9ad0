verus! {
// ======== trusted contract on std HashMap keyed by u64 (nohash_hasher::IntMap) ========
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct IntMap<V> { x: core::marker::PhantomData<V> }
impl<V> View for IntMap<V> {
    type V = Map<u64, V>;
    uninterp spec fn view(&self) -> Map<u64, V>;
}
impl<V> IntMap<V> {
    #[verifier::external_body]
    pub fn default() -> (r: Self)
        ensures r@ == Map::<u64, V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &u64) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &u64) -> (r: Option<&V>)
        ensures
            self@.contains_key(*k) ==> r == Some(&self@[*k]),
            !self@.contains_key(*k) ==> r.is_none(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &u64) -> (r: Option<&mut V>)
        ensures
            old(self)@.contains_key(*k) ==> r.is_some() && *r.unwrap() == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r.unwrap())),
            !old(self)@.contains_key(*k) ==> r.is_none() && final(self)@ == old(self)@,
    { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: u64) -> (r: HEntry<'a, V>)
        ensures
            old(self)@.contains_key(k) ==> r is Occupied && *r->Occupied_0.map == *old(self) && *final(r->Occupied_0.map) == *final(self) && r->Occupied_0.key == k,
            !old(self)@.contains_key(k) ==> r is Vacant && *r->Vacant_0.map == *old(self) && *final(r->Vacant_0.map) == *final(self) && r->Vacant_0.key == k,
    {
        if self.contains_key(&k) { HEntry::Occupied(OccupiedEntry { map: self, key: k }) } else { HEntry::Vacant(VacantEntry { map: self, key: k }) }
    }
}
// std::collections::hash_map::Entry, written over the operations above
#[verifier::reject_recursive_types(V)]
pub enum HEntry<'a, V> { Occupied(OccupiedEntry<'a, V>), Vacant(VacantEntry<'a, V>) }
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, V> { pub map: &'a mut IntMap<V>, pub key: u64 }
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, V> { pub map: &'a mut IntMap<V>, pub key: u64 }
impl<'a, V> OccupiedEntry<'a, V> {
    pub fn get(&self) -> (r: &V)
        requires old(self.map)@.contains_key(self.key),
        ensures *r == old(self.map)@[self.key],
    { self.map.get(&self.key).unwrap() }
    pub fn remove(self) -> (r: V)
        requires old(self.map)@.contains_key(self.key),
        ensures r == old(self.map)@[self.key], final(self.map)@ == old(self.map)@.remove(self.key),
    { self.map.remove(&self.key).unwrap() }
}
impl<'a, V> VacantEntry<'a, V> {
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    {
        self.map.insert(self.key, v);
        self.map.get_mut(&self.key).unwrap()
    }
}
} // verus!
