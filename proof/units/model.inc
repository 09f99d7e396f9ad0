use std::cmp::Ordering;
verus! {
// ======== trusted contracts ========
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
/// which names have been given to counted references
pub struct Ids { pub next: Ghost<int> }
/// an Rc<()>: all there is to it is which one it is
#[verifier::external_body]
pub struct Token { x: u8 }
impl Token {
    pub uninterp spec fn id(&self) -> int;
    /// Rc::new: none of those there are
    #[verifier::external_body]
    pub fn new(u: (), ids: &mut Ids) -> (r: Self)
        ensures r.id() == old(ids).next@, final(ids).next@ == old(ids).next@ + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self)
        ensures r.id() == self.id(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(a: &Token, b: &Token) -> (r: bool)
        ensures r == (a.id() == b.id()),
    { unimplemented!() }
}
pub struct VxCell<T> { pub v: T }
impl<T> VxCell<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v, { VxCell { v } }
    pub fn set(&mut self, v: T) ensures final(self).v == v, { self.v = v; }
    pub fn get(&self) -> (r: T) where T: Copy ensures r == self.v, { self.v }
    pub fn replace(&mut self, v: T) -> (r: T) ensures r == old(self).v, final(self).v == v, { std::mem::replace(&mut self.v, v) }
}
impl<T> VxCell<Option<T>> {
    pub fn take(&mut self) -> (r: Option<T>) ensures r == old(self).v, final(self).v is None, { std::mem::replace(&mut self.v, None) }
}
/// Option's cloned and clone, for keys
pub trait VxCloned<K>: Sized { spec fn is(&self, r: Option<K>) -> bool; fn vx_cloned(&self) -> (r: Option<K>) ensures self.is(r); }
impl<'a, K: VxKey> VxCloned<K> for Option<&'a K> {
    open spec fn is(&self, r: Option<K>) -> bool { r == deref_opt(*self) }
    fn vx_cloned(&self) -> (r: Option<K>) { match self { Some(k) => Some((**k).clone()), None => None } }
}
impl<K: VxKey> VxCloned<K> for Option<K> {
    open spec fn is(&self, r: Option<K>) -> bool { r == *self }
    fn vx_cloned(&self) -> (r: Option<K>) { match self { Some(k) => Some(k.clone()), None => None } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: std::collections::VecDeque<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty(), { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x), { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last(), old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@, { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty(), { unimplemented!() }
    /// iter().skip(n)
    #[verifier::external_body]
    pub fn vx_from<'a>(&'a self, n: usize) -> (r: VxLater<'a, T>) ensures r.of@ == self@, r.i@ == (if n <= self@.len() { n as int } else { self@.len() as int }), { unimplemented!() }
}
pub struct VxLater<'a, T> { pub of: Ghost<Seq<T>>, pub i: Ghost<int>, pub p: PhantomData<&'a T> }
impl<'a, T> VxLater<'a, T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires 0 <= old(self).i@ <= old(self).of@.len(),
        ensures
            final(self).of == old(self).of,
            old(self).i@ < old(self).of@.len() ==> r is Some && *r.unwrap() == old(self).of@[old(self).i@] && final(self).i@ == old(self).i@ + 1,
            old(self).i@ == old(self).of@.len() ==> r is None && final(self).i@ == old(self).i@,
    { unimplemented!() }
}
/// a part of a list, to be changed in place
pub struct VxSub<'a, K> { pub v: &'a mut Vec<K>, pub lo: usize, pub hi: usize }
pub fn vx_sub_incl<'a, K>(v: &'a mut Vec<K>, lo: usize, last: usize) -> (r: VxSub<'a, K>)
    requires lo <= last < old(v)@.len(),
    ensures r.lo == lo, r.hi == last + 1, (*r.v)@ == old(v)@, *final(r.v) == *final(v),
{ let n = v.len(); VxSub { v, lo, hi: last + 1 } }
pub open spec fn turned<K>(s: Seq<K>, lo: int, hi: int, k: int) -> Seq<K> { s.subrange(0, lo) + s.subrange(lo + k, hi) + s.subrange(lo, lo + k) + s.subrange(hi, s.len() as int) }
impl<'a, K> VxSub<'a, K> {
    #[verifier::external_body]
    pub fn rotate_left(self, k: usize)
        requires k <= self.hi - self.lo, self.hi <= (*old(self.v))@.len(),
        ensures (*final(self.v))@ == turned((*old(self.v))@, self.lo as int, self.hi as int, k as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rotate_right(self, k: usize)
        requires k <= self.hi - self.lo, self.hi <= (*old(self.v))@.len(),
        ensures (*final(self.v))@ == turned((*old(self.v))@, self.lo as int, self.hi as int, self.hi - self.lo - k),
    { unimplemented!() }
}
//@default cell;; pin;; type=Version->u64
//@enum ml Change
//@endfn
//@struct ml ListModelLog
//@opt type=VecDeque<Change<K>>->VecDeque<Change<K>>;; type=Rc<()>->Token;; addfield=hist: Ghost<Map<int, Seq<K>>>
//@endfn
//@struct ml ListModel
//@endfn
// ======== what a change does to a list of keys ========
spec fn fine<K>(o: Seq<K>, c: Change<K>) -> bool {
    &&& o.no_duplicates()
    &&& match c {
        Change::Insert { key, before } => !o.contains(key),
        Change::Remove { key } => o.contains(key),
        Change::Swap { a, b } => o.contains(a) && o.contains(b),
        Change::Move { to_move, before } => o.contains(to_move),
    }
}
spec fn done<K>(o: Seq<K>, c: Change<K>) -> Seq<K> {
    match c {
        Change::Insert { key, before } => o_put(o, key, before),
        Change::Remove { key } => cut(o, key),
        Change::Swap { a, b } => exchanged(o, a, b),
        Change::Move { to_move, before } => o_put(o, to_move, before),
    }
}
// ---- list operations by index
proof fn at_index<K>(o: Seq<K>, i: int, k: K)
    requires o.no_duplicates(), 0 <= i <= o.len(), !o.contains(k),
    ensures o_put(o, k, if i < o.len() { Some(o[i]) } else { None }) == o.insert(i, k), o.insert(i, k).no_duplicates(),
{
    cut_rank(o, k);
    if i < o.len() { idx_at(o, i); place_rank(o, k, Some(o[i])); } else { place_rank(o, k, None); assert(o.push(k) =~= o.insert(i, k)); }
}
proof fn without_index<K>(o: Seq<K>, i: int)
    requires o.no_duplicates(), 0 <= i < o.len(),
    ensures o.contains(o[i]), cut(o, o[i]) == o.remove(i), o.remove(i).no_duplicates(),
{ idx_at(o, i); cut_rank(o, o[i]); }
proof fn swapped<K>(o: Seq<K>, i: int, j: int)
    requires o.no_duplicates(), 0 <= i < o.len(), 0 <= j < o.len(),
    ensures exchanged(o, o[i], o[j]) == o.update(i, o[j]).update(j, o[i]), o.contains(o[i]), o.contains(o[j]), o.update(i, o[j]).update(j, o[i]).no_duplicates(),
{
    idx_at(o, i); idx_at(o, j);
    exchanged_rank(o, o[i], o[j]);
    assert(exchanged(o, o[i], o[j]) =~= o.update(i, o[j]).update(j, o[i]));
}
spec fn moved<K>(o: Seq<K>, from: int, to: int) -> Seq<K> { o.remove(from).insert(to, o[from]) }
proof fn moved_is<K>(o: Seq<K>, from: int, to: int, r: Seq<K>)
    requires
        o.no_duplicates(), 0 <= from < o.len(), 0 <= to < o.len(),
        from < to ==> r == turned(o, from, to + 1, 1),
        from > to ==> r == turned(o, to, from + 1, from - to),
        from == to ==> r == o,
    ensures
        r == moved(o, from, to), r.no_duplicates(), r[to] == o[from], o.contains(o[from]),
        r == o_put(o, r[to], if to + 1 < r.len() { Some(r[to + 1]) } else { None }),
{
    assert(r =~= moved(o, from, to));
    without_index(o, from);
    let c = o.remove(from);
    cut_rank(o, o[from]);
    assert(!c.contains(o[from]));
    at_index(c, to, o[from]);
    if to + 1 < r.len() { assert(r[to + 1] == c[to]); idx_at(c, to); assert(r[to] != r[to + 1]); assert(o.contains(c[to])); cut_rank(o, o[from]); }
}
impl<K> ListModel<K> {
    spec fn now(&self) -> int { self.log.version as int }
    /// what it held when its version was v
    spec fn at(&self, v: int) -> Seq<K> { if v == self.now() { self.vec@ } else { self.log.hist@[v] } }
    spec fn since(&self) -> int { self.now() - self.log.changes@.len() }
    /// the log says how it came from what it was
    spec fn good(&self) -> bool { self.since() >= 1 && forall|v: int| self.since() <= v < self.now() ==> #[trigger] self.told(v) }
    spec fn told(&self, v: int) -> bool { fine(self.at(v), self.log.changes@[v - self.since()]) && self.at(v + 1) == done(self.at(v), self.log.changes@[v - self.since()]) }
    /// edited from m
    spec fn follows(&self, m: Self) -> bool {
        &&& self.now() >= m.now() && self.log.unique.id() == m.log.unique.id()
        &&& forall|v: int| v <= m.now() ==> #[trigger] self.at(v) == m.at(v)
    }
    /// added to the log
    spec fn noted(&self, m: Self, c: Change<K>) -> bool {
        &&& self.vec == m.vec && self.log.unique == m.log.unique && self.log.hist == m.log.hist
        &&& self.now() == m.now() + 1
        &&& self.log.changes@ == m.log.changes@.push(c) || self.log.changes@ == m.log.changes@.push(c).drop_first()
    }
    proof fn edited(&self, m: Self, c: Change<K>)
        requires
            m.good(), self.log.unique.id() == m.log.unique.id(), self.now() == m.now() + 1,
            self.log.hist@ == m.log.hist@.insert(m.now(), m.vec@),
            self.log.changes@ == m.log.changes@.push(c) || self.log.changes@ == m.log.changes@.push(c).drop_first(),
            fine(m.vec@, c), self.vec@ == done(m.vec@, c),
        ensures self.good(), self.follows(m),
    {
        assert forall|v: int| v <= m.now() implies #[trigger] self.at(v) == m.at(v) by {}
        assert forall|v: int| self.since() <= v < self.now() implies #[trigger] self.told(v) by {
            if v < m.now() {
                assert(m.told(v));
                assert(self.log.changes@[v - self.since()] == m.log.changes@[v - m.since()]);
                assert(self.at(v) == m.at(v)); assert(self.at(v + 1) == m.at(v + 1));
            } else {
                assert(self.log.changes@[v - self.since()] == c);
            }
        }
    }
}
impl<K> ListModelLog<K> {
//@fn ml ListModelLog::Default::default
//@opt addparam=w: &mut Ids;; path=Rc::new->Token::new;; expr=Rc::new(())->Token::new((), w);; lit=Self|hist: Ghost(Map::empty())
//@spec
    ensures r.version == 1, r.changes@ == Seq::<Change<K>>::empty(), r.unique.id() == old(w).next@, final(w).next@ == old(w).next@ + 1, // [L03]
//@endfn
//@fn ml ListModelLog::Clone::clone
//@opt addparam=w: &mut Ids;; expr=Self::default()->Self::default(w);; expr=Default::default()->Self::default(w)
//@spec
    ensures r.version == 1, r.changes@ == Seq::<Change<K>>::empty(), r.unique.id() == old(w).next@, final(w).next@ == old(w).next@ + 1, // [L03]
//@endfn
}
impl<K: VxKey> ListModel<K> {
//@fn ml ListModel::Default::default
//@opt addparam=w: &mut Ids;; fielddef=vec:Vec::new();; fielddef=log:ListModelLog::default(w)
//@spec
    ensures r.good(), r.vec@ == Seq::<K>::empty(), r.log.unique.id() == old(w).next@, final(w).next@ == old(w).next@ + 1, // [L03]
//@endfn
//@fn ml ListModel::new
//@opt addparam=w: &mut Ids;; expr=Self::default()->Self::default(w)
//@spec
    ensures r.good(), r.vec@ == Seq::<K>::empty(), r.log.unique.id() == old(w).next@, final(w).next@ == old(w).next@ + 1, // [L03]
//@endfn
//@fn ml ListModel::From::from
//@opt addparam=w: &mut Ids;; expr=Default::default()->ListModelLog::default(w)
//@spec
    ensures r.good(), r.vec == vec, r.log.unique.id() == old(w).next@, final(w).next@ == old(w).next@ + 1, // [L03]
//@endfn
//@fn ml ListModel::add_change
//@spec
    requires old(self).now() < u64::MAX,
    ensures final(self).noted(*old(self), change), // [L03]
//@endfn
//@fn ml ListModel::insert
//@opt rename=cloned:vx_cloned
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), !old(self).vec@.contains(key), index <= old(self).vec@.len(), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), final(self).vec@ == old(self).vec@.insert(index as int, key), // [L03]
//@begin
    let ghost m = *self; let ghost k = key;
    proof { at_index(m.vec@, index as int, key); self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@end
    proof { self.edited(m, Change::Insert { key: k, before: if index < m.vec@.len() { Some(m.vec@[index as int]) } else { None } }); }
//@endfn
//@fn ml ListModel::remove
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), index < old(self).vec@.len(), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), final(self).vec@ == old(self).vec@.remove(index as int), r == old(self).vec@[index as int], // [L03]
//@begin
    let ghost m = *self;
    proof { without_index(m.vec@, index as int); self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@end
    proof { self.edited(m, Change::Remove { key: __r }); }
//@endfn
//@fn ml ListModel::pop
//@opt rename=clone:vx_cloned
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), // [L03]
        old(self).vec@.len() > 0 ==> r == Some(old(self).vec@.last()) && final(self).vec@ == old(self).vec@.drop_last(), // [L03]
        old(self).vec@.len() == 0 ==> r is None && final(self).vec@ == old(self).vec@, // [L03]
//@begin
    let ghost m = *self;
    proof { self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); if m.vec@.len() > 0 { without_index(m.vec@, m.vec@.len() - 1); assert(m.vec@.drop_last() =~= m.vec@.remove(m.vec@.len() - 1)); } }
//@end
    proof {
        if m.vec@.len() > 0 { self.edited(m, Change::Remove { key: m.vec@.last() }); }
        else { assert(self.vec@ =~= m.vec@); assert forall|v: int| v <= m.now() implies #[trigger] self.at(v) == m.at(v) by {} assert forall|v: int| self.since() <= v < self.now() implies #[trigger] self.told(v) by { assert(m.told(v)); assert(self.at(v) == m.at(v) && self.at(v + 1) == m.at(v + 1)); } }
    }
//@endfn
//@fn ml ListModel::push
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), !old(self).vec@.contains(key), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), final(self).vec@ == old(self).vec@.push(key), // [L03]
//@begin
    let ghost m = *self; let ghost k = key;
    proof { at_index(m.vec@, m.vec@.len() as int, key); assert(m.vec@.push(key) =~= m.vec@.insert(m.vec@.len() as int, key)); self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@end
    proof { self.edited(m, Change::Insert { key: k, before: None }); }
//@endfn
//@fn ml ListModel::swap
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), a < old(self).vec@.len(), b < old(self).vec@.len(), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), // [L03]
        final(self).vec@ == old(self).vec@.update(a as int, old(self).vec@[b as int]).update(b as int, old(self).vec@[a as int]), // [L03]
//@begin
    let ghost m = *self;
    proof { swapped(m.vec@, a as int, b as int); self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@end
    proof { self.edited(m, Change::Swap { a: m.vec@[a as int], b: m.vec@[b as int] }); }
//@endfn
//@fn ml ListModel::move_item
//@opt slices;; rename=cloned:vx_cloned
//@spec
    requires old(self).good(), old(self).vec@.no_duplicates(), from < old(self).vec@.len(), to < old(self).vec@.len(), old(self).now() < u64::MAX,
    ensures
        final(self).good(), final(self).follows(*old(self)), final(self).vec@ == moved(old(self).vec@, from as int, to as int), // [L03]
//@begin
    let ghost m = *self;
    proof { self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@before self.add_change(
    proof { moved_is(m.vec@, from as int, to as int, self.vec@); }
//@end
    proof { self.edited(m, Change::Move { to_move: m.vec@[from as int], before: if to + 1 < self.vec@.len() { Some(self.vec@[to + 1]) } else { None } }); }
//@endfn
//@fn ml ListModel::modify_vec
//@spec
    requires old(self).good(), old(self).now() < u64::MAX,
    ensures
        *r == old(self).vec, // [L03]
        final(self).good(), final(self).follows(*old(self)), final(self).vec == *final(r), // [L03]
//@begin
    let ghost m = *self;
    proof { self.log.hist@ = self.log.hist@.insert(m.now(), m.vec@); }
//@endfn
}
// ======== the list that follows a model ========
/// the keys of V said yes of are in one set, the others in the other
spec fn parted<K>(left: Set<K>, taken: Set<K>, V: Seq<K>, calls: Seq<(K, bool)>) -> bool {
    &&& forall|k: K| #[trigger] left.contains(k) <==> V.contains(k) && !said(calls, 0, k, true)
    &&& forall|k: K| #[trigger] taken.contains(k) <==> said(calls, 0, k, true)
    &&& forall|i: int| 0 <= i < calls.len() ==> ((#[trigger] calls[i]).1 ==> V.contains(calls[i].0)) && (!calls[i].1 && V.contains(calls[i].0) ==> exists|j: int| 0 <= j < i && #[trigger] calls[j] == (calls[i].0, true))
}
/// the closure given to retain in update: keeps those that are in the model, and takes them from one set to the other
#[verifier::reject_recursive_types(K)]
struct Keeping<'a, K> { new_keys: HashSet<'a, K>, retained_keys: HashSet<'a, K>, of: Ghost<Seq<K>>, calls: Ghost<Seq<(K, bool)>> }
impl<'a, K> VxPred<K> for Keeping<'a, K> {
    closed spec fn calls(&self) -> Seq<(K, bool)> { self.calls@ }
    closed spec fn of(&self) -> Seq<K> { self.of@ }
    closed spec fn inv(&self) -> bool { parted(self.new_keys@, self.retained_keys@, self.of@, self.calls@) }
//@fn ml ModeledList::update
//@opt closure=retain;; name=call;; sig=fn call(&mut self, $0: &K) -> (r: bool);; subst=new_keys->self.new_keys;; subst=retained_keys->self.retained_keys
//@begin
    let ghost c0 = self.calls@; let ghost g0 = *self; let ghost key0 = *k;
//@end
    proof {
        self.calls@ = c0.push((key0, __r));
        said_more(c0, 0, (key0, __r));
        let c1 = self.calls@;
        assert forall|i: int| 0 <= i < c1.len() implies ((#[trigger] c1[i]).1 ==> self.of@.contains(c1[i].0)) && (!c1[i].1 && self.of@.contains(c1[i].0) ==> exists|j: int| 0 <= j < i && #[trigger] c1[j] == (c1[i].0, true)) by {
            if i < c0.len() {
                assert(c1[i] == c0[i]);
                if !c1[i].1 && self.of@.contains(c1[i].0) { let j = choose|j: int| 0 <= j < i && #[trigger] c0[j] == (c0[i].0, true); assert(c1[j] == c0[j]); }
            } else if !__r && self.of@.contains(key0) {
                assert(said(c0, 0, key0, true));
                let j = choose|j: int| 0 <= j < c0.len() && #[trigger] c0[j] == (key0, true);
                assert(c1[j] == c0[j]);
            }
        }
    }
//@endfn
}
proof fn starting<K>(c: Keeping<K>, V: Seq<K>)
    requires c.of@ == V, c.calls@ == Seq::<(K, bool)>::empty(), c.retained_keys@ == Set::<K>::empty(), forall|k: K| #[trigger] c.new_keys@.contains(k) <==> V.contains(k),
    ensures c.inv(),
{ said_none(c.calls@); }
/// asked about each key of o once, the closure kept those of the model
proof fn sorted_out<K>(c: Keeping<K>, o: Seq<K>)
    requires c.inv(), polled(c.calls(), 0, o),
    ensures forall|k: K| #[trigger] c.retained_keys@.contains(k) <==> o.contains(k) && c.of@.contains(k),
        forall|k: K| #[trigger] said(c.calls(), 0, k, true) <==> o.contains(k) && c.of@.contains(k),
{
    assert forall|k: K| o.contains(k) && c.of@.contains(k) implies #[trigger] said(c.calls(), 0, k, true) by {
        if said(c.calls(), 0, k, false) {
            let i = choose|i: int| 0 <= i < c.calls().len() && #[trigger] c.calls()[i] == (k, false);
            let j = choose|j: int| 0 <= j < i && #[trigger] c.calls()[j] == (c.calls()[i].0, true);
            assert(c.calls()[j].0 != c.calls()[i].0);
        }
    }
    assert forall|k: K| #[trigger] said(c.calls(), 0, k, true) implies o.contains(k) && c.of@.contains(k) by {
        let i = choose|i: int| 0 <= i < c.calls().len() && #[trigger] c.calls()[i] == (k, true);
    }
}
proof fn kept_those<K, F>(c: Keeping<K>, o: Seq<K>, m0: Items<K, F>, m1: Items<K, F>, calls: Seq<(K, F)>)
    requires c.inv(), polled(c.calls(), 0, o), chosen(m0, m1, c.calls(), 0),
    ensures
        forall|k: K| #[trigger] c.retained_keys@.contains(k) <==> o.contains(k) && c.of@.contains(k),
        forall|k: K| #[trigger] m1.dom().contains(k) <==> c.retained_keys@.contains(k),
        forall|k: K| #[trigger] c.retained_keys@.contains(k) ==> m1.dom().contains(k) && m1[k] == m0[k],
        dressed(m0, m1, calls, calls.len() as int),
{
    sorted_out(c, o);
    assert forall|k: K| #[trigger] m1.dom().contains(k) <==> c.retained_keys@.contains(k) by { assert(m1.dom().contains(k) == said(c.calls(), 0, k, true)); }
    assert forall|k: K| #[trigger] c.retained_keys@.contains(k) implies m1.dom().contains(k) && m1[k] == m0[k] by { assert(m1.dom().contains(k)); }
}
/// what the rebuilt list is made of: those kept, then those of the first i keys of V that are new
spec fn added<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>, i: int) -> bool {
    &&& o.no_duplicates()
    &&& forall|k: K| #[trigger] o.contains(k) <==> kept.contains(k) || V.contains(k) && idx(V, k) < i
    &&& forall|x: K, y: K| !kept.contains(x) && !kept.contains(y) && #[trigger] bef(V, x, y) && idx(V, y) < i ==> bef(o, x, y)
}
proof fn add_one<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>, i: int)
    requires added(o, kept, V, i), 0 <= i < V.len(), V.no_duplicates(),
    ensures
        kept.contains(V[i]) ==> added(o, kept, V, i + 1),
        !kept.contains(V[i]) ==> !o.contains(V[i]) && added(o_put(o, V[i], None), kept, V, i + 1),
{
    idx_at(V, i);
    let k = V[i];
    assert forall|x: K| V.contains(x) && idx(V, x) == i implies x == k by { at_idx(V, x); }
    if !kept.contains(k) {
        cut_rank(o, k);
        place_rank(o, k, None);
        let r = o_put(o, k, None);
        assert forall|x: K, y: K| !kept.contains(x) && !kept.contains(y) && #[trigger] bef(V, x, y) && idx(V, y) < i + 1 implies bef(r, x, y) by {
            if idx(V, y) < i { assert(bef(o, x, y)); } else { assert(y == k); assert(o.contains(x)); }
        }
    } else {
        assert forall|x: K, y: K| !kept.contains(x) && !kept.contains(y) && #[trigger] bef(V, x, y) && idx(V, y) < i + 1 implies bef(o, x, y) by { if idx(V, y) == i { at_idx(V, y); } }
    }
}
/// the keys of V from the i-th on are in their order, after the new ones before the i-th
spec fn settled<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>, i: int) -> bool {
    &&& o.no_duplicates()
    &&& forall|k: K| #[trigger] o.contains(k) <==> V.contains(k)
    &&& forall|x: K, y: K| #[trigger] bef(V, x, y) && (idx(V, x) >= i || !kept.contains(x)) && (idx(V, y) >= i || !kept.contains(y)) ==> bef(o, x, y)
}
proof fn settle_none<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>)
    requires added(o, kept, V, V.len() as int), V.no_duplicates(), forall|k: K| #[trigger] kept.contains(k) ==> V.contains(k),
    ensures settled(o, kept, V, V.len() as int),
{
    assert forall|k: K| V.contains(k) implies #[trigger] o.contains(k) by { at_idx(V, k); }
    assert forall|x: K, y: K| #[trigger] bef(V, x, y) implies idx(V, x) < V.len() && idx(V, y) < V.len() by { at_idx(V, x); at_idx(V, y); }
}
proof fn settle_one<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>, i: int)
    requires settled(o, kept, V, i + 1), 0 <= i < V.len(), V.no_duplicates(),
    ensures
        !kept.contains(V[i]) ==> settled(o, kept, V, i),
        kept.contains(V[i]) ==> settled(o_put(o, V[i], if i + 1 < V.len() { Some(V[i + 1]) } else { None }), kept, V, i),
        o.contains(V[i]),
{
    idx_at(V, i);
    let k = V[i];
    assert forall|x: K| V.contains(x) && #[trigger] idx(V, x) == i implies x == k by { at_idx(V, x); }
    assert(o.contains(k));
    if kept.contains(k) {
        let b = if i + 1 < V.len() { Some(V[i + 1]) } else { None };
        if i + 1 < V.len() { idx_at(V, i + 1); assert(V[i + 1] != k); assert(o.contains(V[i + 1])); }
        cut_rank(o, k);
        let c = cut(o, k);
        place_rank(c, k, there(o, b));
        let r = o_put(o, k, b);
        assert forall|x: K, y: K| #[trigger] bef(V, x, y) && (idx(V, x) >= i || !kept.contains(x)) && (idx(V, y) >= i || !kept.contains(y)) implies bef(r, x, y) by {
            at_idx(V, x); at_idx(V, y);
            assert(c.contains(x) <==> o.contains(x) && x != k);
            assert(c.contains(y) <==> o.contains(y) && y != k);
            assert(bef(c, x, y) <==> bef(o, x, y) && x != k && y != k);
            if let Some(z) = b {
                assert(bef(c, z, y) <==> bef(o, z, y) && y != k);
                assert(bef(c, x, z) <==> bef(o, x, z) && x != k);
                if x == k && y != z { assert(idx(V, y) != i + 1) by { if idx(V, y) == i + 1 { assert(V[i + 1] == y); } } assert(bef(V, z, y)); assert(bef(o, z, y)); }
                if y == k { assert(bef(V, x, z)); assert(bef(o, x, z)); }
            } else {
                if x == k { assert(idx(V, y) > i); assert(false); }
            }
        }
    }
}
proof fn settle_all<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>)
    requires settled(o, kept, V, 0), V.no_duplicates(),
    ensures o == V,
{
    assert forall|x: K, y: K| #[trigger] bef(V, x, y) implies bef(o, x, y) by { at_idx(V, x); at_idx(V, y); }
    same_rank(V, o);
}
proof fn kept_only<K>(o: Seq<K>, kept: Set<K>, V: Seq<K>)
    requires o.no_duplicates(), forall|k: K| #[trigger] o.contains(k) <==> kept.contains(k),
    ensures added(o, kept, V, 0),
{
    assert forall|k: K| #[trigger] o.contains(k) <==> kept.contains(k) || V.contains(k) && idx(V, k) < 0 by { if V.contains(k) { at_idx(V, k); } }
    assert forall|x: K, y: K| #[trigger] bef(V, x, y) implies idx(V, y) >= 0 by { at_idx(V, y); }
}
/// every entry is an old one, or shows what the renderer made of its key
spec fn dressed<K, F>(m0: Items<K, F>, m: Items<K, F>, calls: Seq<(K, F)>, n: int) -> bool {
    forall|k: K| #[trigger] m.dom().contains(k) ==> m0.dom().contains(k) && m[k] == m0[k] || given(calls, n, k, m[k].task.fut())
}
spec fn given<K, F>(calls: Seq<(K, F)>, n: int, k: K, f: F) -> bool { exists|i: int| n <= i < calls.len() && #[trigger] calls[i] == (k, f) }
proof fn dressed_more<K, F>(m0: Items<K, F>, m: Items<K, F>, calls: Seq<(K, F)>, n: int, k: K, f: F, v: Stored<F>)
    requires dressed(m0, m, calls, n), v.task.fut() == f, 0 <= n <= calls.len(),
    ensures dressed(m0, m.insert(k, v), calls.push((k, f)), n),
{
    let c1 = calls.push((k, f));
    assert(c1[calls.len() as int] == (k, f));
    assert forall|x: K| #[trigger] m.insert(k, v).dom().contains(x) implies m0.dom().contains(x) && m.insert(k, v)[x] == m0[x] || given(c1, n, x, m.insert(k, v)[x].task.fut()) by {
        if x == k { assert(given(c1, n, k, f)); }
        else if !(m0.dom().contains(x) && m[x] == m0[x]) { let i = choose|i: int| n <= i < calls.len() && #[trigger] calls[i] == (x, m[x].task.fut()); assert(c1[i] == calls[i]); }
    }
}
proof fn dressed_less<K, F>(m0: Items<K, F>, m: Items<K, F>, calls: Seq<(K, F)>, n: int, k: K)
    requires dressed(m0, m, calls, n),
    ensures dressed(m0, m.remove(k), calls, n),
{}
/// what a change does, spelled out
proof fn done_is<K>(o: Seq<K>, c: Change<K>)
    ensures
        c matches Change::Insert { key, before } ==> done(o, c) == o_put(o, key, before) && (fine(o, c) ==> !o.contains(key)),
        c matches Change::Remove { key } ==> done(o, c) == cut(o, key) && (fine(o, c) ==> o.contains(key)),
        c matches Change::Swap { a, b } ==> done(o, c) == exchanged(o, a, b) && (fine(o, c) ==> o.contains(a) && o.contains(b)),
        c matches Change::Move { to_move, before } ==> done(o, c) == o_put(o, to_move, before) && (fine(o, c) ==> o.contains(to_move)),
{}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(F)]
//@struct ml ModeledList
//@opt generics=<K, F, R>;; where=;; type=DynamicList<'c,K,F>->DynamicList<K, F>;; type=Rc<()>->Token;; type=Cell<Option<Token>>->VxCell<Option<Token>>;; type=Cell<u64>->VxCell<u64>
//@endfn
impl<K> ListModel<K> {
    proof fn step(&self, v: int)
        requires self.good(), self.since() <= v < self.now(),
        ensures fine(self.at(v), self.log.changes@[v - self.since()]), self.at(v + 1) == done(self.at(v), self.log.changes@[v - self.since()]),
    { assert(self.told(v)); }
    /// it held k, all the time
    spec fn always(&self, from: int, to: int, k: K) -> bool { forall|v: int| from <= v <= to ==> (#[trigger] self.at(v)).contains(k) }
}
impl<K> ListModel<K> {
    proof fn ends(&self, from: int, to: int, k: K)
        requires self.always(from, to, k), from <= to,
        ensures self.at(from).contains(k), self.at(to).contains(k), from < to ==> self.always(from, to - 1, k) && self.at(to - 1).contains(k),
    {}
}
impl<K: VxKey, F, R: VxRender<K, F>> ModeledList<K, F, R> {
    spec fn shown(&self, w: World) -> Seq<K> { self.list.order(w) }
    /// the model it was last updated from
    spec fn knows(&self, m: ListModel<K>) -> bool { self.unique.v is Some && self.unique.v.unwrap().id() == m.log.unique.id() }
    /// it shows what the model it was last updated from held then
    spec fn tracks(&self, w: World, m: ListModel<K>) -> bool { self.knows(m) ==> self.version.v <= m.now() && self.shown(w) == m.at(self.version.v as int) }
    /// what update asks for is so of every model: of one it was not last updated from, for nothing is asked ...
    proof fn of_others(&self, w: World, m: ListModel<K>)
        requires !self.knows(m),
        ensures self.tracks(w, m), // [L03]
    {}
    /// ... of the one it was just updated from ...
    proof fn of_this(&self, w: World, m: ListModel<K>)
        requires self.shown(w) == m.vec@, self.version.v == m.now(),
        ensures self.tracks(w, m), // [L03]
    {}
    /// ... and of that one after it is edited
    proof fn of_edited(&self, w: World, m: ListModel<K>, m1: ListModel<K>)
        requires self.tracks(w, m), m1.follows(m),
        ensures self.tracks(w, m1), // [L03]
    {}
//@fn ml ModeledList::new
//@opt addparam=w: &mut World;; expr=DynamicList::new()->DynamicList::new(w);; path=Cell::new->VxCell::new
//@spec
    requires old(w).tidy(),
    ensures r.list.good(*final(w)), r.shown(*final(w)) == Seq::<K>::empty(), r.unique.v is None, r.renderer == renderer, // [L03]
//@endfn
//@fn ml ModeledList::update
//@opt self=mut;; opt=is_some_and;; fnfield=renderer;; path=Rc::ptr_eq->Token::ptr_eq;; chain=iter.skip->vx_from,iter.rev->vx_back,iter.collect->vx_set;; passto=list.insert:w;; passto=list.remove:w;; passto=list.swap:w;; passto=list.move_before:w;; passto=list.retain:w;; defun=retain:Keeping:new_keys,retained_keys:of: Ghost(V), calls: Ghost(Seq::empty());; addparam=w: &mut World;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires old(self).list.good(*old(w)), model.good(), model.vec@.no_duplicates(), old(self).tracks(*old(w), *model),
    ensures
        final(self).list.good(*final(w)), // [L03]
        // the keys of the model, in order
        final(self).shown(*final(w)) == model.vec@, // [L03]
        final(self).knows(*model), final(self).version.v == model.now(), // [L03]
        // keys never removed keep their futures
        old(self).knows(*model) ==> forall|k: K| #[trigger] model.always(old(self).version.v as int, model.now(), k) ==> final(self).list.items()[k] == old(self).list.items()[k], // [L03]
        // the others got theirs from the renderer
        final(self).renderer.calls().len() >= old(self).renderer.calls().len(), // [L03]
        dressed(old(self).list.items(), final(self).list.items(), final(self).renderer.calls(), old(self).renderer.calls().len() as int), // [L03]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(fine); hide(done); hide(added); hide(settled); hide(dressed); hide(exchanged); hide(DynamicList::good); hide(DynamicList::order); hide(DynamicList::shows); hide(ListModel::good); hide(DynamicList::frame); hide(said); hide(within); hide(framed); hide(fits); hide(polled); hide(parted); hide(chosen); hide(ListModel::always);
    let ghost g0 = *self; let ghost w0 = *w; let ghost V = model.vec@; let ghost m0 = g0.list.items(); let ghost c0 = g0.renderer.calls(); let ghost n = c0.len() as int; let ghost v0 = g0.version.v as int; let ghost kn = g0.knows(*model); let ghost o0 = g0.shown(w0);
    let ghost mut kept: Set<K> = Set::empty(); let ghost mut mr = m0; let ghost mut rebuilt = false;
    proof { reveal(ListModel::good); reveal(dressed); g0.list.listed(w0);
        assert forall|k: K| kn && v0 <= model.now() && #[trigger] model.always(v0, v0, k) implies m0.dom().contains(k) by { model.ends(v0, v0, k); assert(o0.contains(k)); }
    }
//@loop 0
    invariant
        model.good(), __it1.of@ == model.log.changes@, 0 <= __it1.i@ <= __it1.of@.len(), v0 <= model.since() + __it1.i@,
        m0 == g0.list.items(), c0 == g0.renderer.calls(), n == c0.len(),
        self.list.good(*w), self.shown(*w) == model.at(model.since() + __it1.i@),
        self.unique.v is Some, self.unique.v.unwrap().id() == model.log.unique.id(), self.version.v == model.now(),
        self.renderer.calls().len() >= n,
        dressed(m0, self.list.items(), self.renderer.calls(), n),
        forall|k: K| #[trigger] model.always(v0, model.since() + __it1.i@, k) ==> self.list.items().dom().contains(k) && self.list.items()[k] == m0[k],
    ensures
        __it1.i@ == __it1.of@.len(),
//@loopstart 0
    let ghost w1 = *w; let ghost l1 = self.list; let ghost o1 = l1.order(w1); let ghost v = model.since() + __it1.i@; let ghost q1 = self.renderer.calls(); let ghost i1 = __it1.i@;
    proof {
        l1.listed(w1);
        if i1 < __it1.of@.len() { model.step(v); done_is(o1, __it1.of@[i1]); }
        assert forall|k: K| #[trigger] model.always(v0, v + 1, k) implies model.always(v0, v, k) && model.at(v).contains(k) && model.at(v + 1).contains(k) by { model.ends(v0, v + 1, k); }
    }
//@loopend 0
    proof {
        let c = __it1.of@[i1];
        let l2 = self.list;
        done_is(o1, c);
        assert(l2.order(*w) == model.at(v + 1));
        l2.listed(*w);
        assert forall|k: K| #[trigger] model.always(v0, v + 1, k) implies l2.items().dom().contains(k) && l2.items()[k] == m0[k] by { assert(model.always(v0, v, k)); }
        match c {
            Change::Insert { key, before } => { let f = l2.items()[key].task.fut(); dressed_more(m0, l1.items(), q1, n, key, f, l2.items()[key]); }
            Change::Remove { key } => { dressed_less(m0, l1.items(), q1, n, key); }
            _ => {}
        }
    }
//@before self.list.retain(
    proof { starting(__c, V); }
//@after self.list.retain(
    proof {
        kept = __c.retained_keys@; mr = self.list.items();
        kept_those(__c, o0, m0, mr, c0);
        rebuilt = true;
        self.list.listed(*w);
        kept_only(self.shown(*w), kept, V);
    }
//@loop 1
    invariant
        self.list.good(*w), added(self.shown(*w), kept, V, __it2.i as int), V == model.vec@, V.no_duplicates(), __it2.v == &model.vec, __it2.i <= V.len(),
        m0 == g0.list.items(), c0 == g0.renderer.calls(), n == c0.len(), retained_keys@ == kept, forall|k: K| #[trigger] kept.contains(k) ==> V.contains(k),
        self.unique.v is Some, self.unique.v.unwrap().id() == model.log.unique.id(), self.version.v == model.now(),
        self.renderer.calls().len() >= n,
        dressed(m0, self.list.items(), self.renderer.calls(), n),
        forall|k: K| #[trigger] kept.contains(k) ==> self.list.items().dom().contains(k) && self.list.items()[k] == m0[k],
        rebuilt, kn ==> v0 <= model.now(), forall|k: K| #[trigger] kept.contains(k) <==> o0.contains(k) && V.contains(k),
    ensures
        __it2.i == V.len(),
//@loopstart 1
    let ghost w1 = *w; let ghost l1 = self.list; let ghost q1 = self.renderer.calls(); let ghost i1 = __it2.i as int;
    proof { if i1 < V.len() { add_one(l1.order(w1), kept, V, i1); } }
//@loopend 1
    proof {
        let k = V[i1];
        if !kept.contains(k) { dressed_more(m0, l1.items(), q1, n, k, self.list.items()[k].task.fut(), self.list.items()[k]); }
    }
//@loopbefore 2
    proof { settle_none(self.shown(*w), kept, V); }
//@loop 2
    invariant
        self.list.good(*w), settled(self.shown(*w), kept, V, __it4.n as int), V == model.vec@, V.no_duplicates(), __it4.v == &model.vec, __it4.n <= V.len(),
        __acc3 == (if __it4.n < V.len() { Some(&V[__it4.n as int]) } else { None::<&K> }),
        m0 == g0.list.items(), c0 == g0.renderer.calls(), n == c0.len(), retained_keys@ == kept, forall|k: K| #[trigger] kept.contains(k) ==> V.contains(k),
        self.unique.v is Some, self.unique.v.unwrap().id() == model.log.unique.id(), self.version.v == model.now(),
        self.renderer.calls().len() >= n,
        dressed(m0, self.list.items(), self.renderer.calls(), n),
        forall|k: K| #[trigger] kept.contains(k) ==> self.list.items().dom().contains(k) && self.list.items()[k] == m0[k],
        rebuilt, kn ==> v0 <= model.now(), forall|k: K| #[trigger] kept.contains(k) <==> o0.contains(k) && V.contains(k),
    ensures
        __it4.n == 0,
//@loopstart 2
    let ghost w1 = *w; let ghost l1 = self.list; let ghost n1 = __it4.n as int;
    proof { l1.listed(w1); if n1 > 0 { settle_one(l1.order(w1), kept, V, n1 - 1); } }
//@end
    proof {
        if rebuilt {
            settle_all(self.shown(*w), kept, V);
            assert forall|k: K| kn && #[trigger] model.always(v0, model.now(), k) implies self.list.items()[k] == m0[k] by {
                model.ends(v0, model.now(), k); assert(o0.contains(k)); assert(kept.contains(k));
            }
        }
    }
//@endfn
}
} // verus!
