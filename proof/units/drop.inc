verus! {
// ======== the document, as to one select element and the option elements made for it (trusted contracts) ========
/// which option elements it has, in order; which is selected; their texts; which elements have been made
pub struct World { pub kids: Ghost<Seq<int>>, pub sel: Ghost<Option<int>>, pub texts: Ghost<Map<int, Seq<char>>>, pub used: Ghost<Set<int>> }
/// empty, or only spaces: the value of an option is its text without the spaces around it
pub uninterp spec fn blank(t: Seq<char>) -> bool;
impl World {
    /// a selected option is one of its options
    pub open spec fn sound(&self) -> bool { self.sel@ is Some ==> self.kids@.contains(self.sel@.unwrap()) }
    /// everything but the selection is as in w
    pub open spec fn but_sel(&self, w: World) -> bool { self.kids == w.kids && self.texts == w.texts && self.used == w.used }
}
#[verifier::external_body]
pub struct OptElem { e: u8 }
impl OptElem {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: Self)
        requires old(w).sound(),
        ensures !old(w).used@.contains(r.id()), final(w).used@ == old(w).used@.insert(r.id()), final(w).kids == old(w).kids, final(w).sel == old(w).sel, final(w).texts@ == old(w).texts@.insert(r.id(), Seq::empty()),
    { unimplemented!() }
    pub fn as_ref(&self) -> (r: &OptElem)
        ensures r == self,
    { self }
    /// of an option of the select
    #[verifier::external_body]
    pub fn set_selected(&self, b: bool, w: &mut World)
        requires old(w).sound(), old(w).kids@.contains(self.id()),
        ensures
            final(w).but_sel(*old(w)), final(w).sound(),
            b ==> final(w).sel@ == Some(self.id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_text_content(&self, t: Option<&str>, w: &mut World)
        ensures final(w).kids == old(w).kids, final(w).sel == old(w).sel, final(w).used == old(w).used, final(w).texts@ == old(w).texts@.insert(self.id(), match t { Some(t) => t@, None => Seq::empty() }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Select { e: u8 }
impl Select {
    #[verifier::external_body]
    pub fn new(w: &mut World) -> (r: Self)
        ensures final(w).kids@ == Seq::<int>::empty(), final(w).sel@ is None, final(w).texts == old(w).texts, final(w).used == old(w).used,
    { unimplemented!() }
    /// inserting may select something (the browser's choice)
    #[verifier::external_body]
    pub fn insert_before(&self, n: &OptElem, b: Option<&OptElem>, w: &mut World) -> (r: Result<(), ()>)
        requires old(w).sound(), b is Some ==> old(w).kids@.contains(b.unwrap().id()) && b.unwrap().id() != n.id(),
        ensures
            r is Ok, final(w).sound(), final(w).texts == old(w).texts, final(w).used == old(w).used,
            final(w).kids@ == place(cut(old(w).kids@, n.id()), n.id(), match b { Some(b) => Some(b.id()), None => None }),
    { unimplemented!() }
    /// removing the selected option may select another
    #[verifier::external_body]
    pub fn remove_child(&self, n: &OptElem, w: &mut World) -> (r: Result<(), ()>)
        requires old(w).sound(), old(w).kids@.contains(n.id()),
        ensures
            r is Ok, final(w).sound(), final(w).texts == old(w).texts, final(w).used == old(w).used,
            final(w).kids@ == cut(old(w).kids@, n.id()),
    { unimplemented!() }
    /// selects the first option with that value, or none
    #[verifier::external_body]
    pub fn set_value(&self, v: &str, w: &mut World)
        requires old(w).sound(),
        ensures
            final(w).but_sel(*old(w)), final(w).sound(),
            v@.len() == 0 && (forall|i: int| #![trigger old(w).kids@[i]] 0 <= i < old(w).kids@.len() ==> !blank(old(w).texts@[old(w).kids@[i]])) ==> final(w).sel@ is None,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_selected_index(&self, i: i32, w: &mut World)
        requires old(w).sound(),
        ensures
            final(w).but_sel(*old(w)), final(w).sound(),
            i < 0 ==> final(w).sel@ is None,
            0 <= i < old(w).kids@.len() ==> final(w).sel@ == Some(old(w).kids@[i as int]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn selected_index(&self, w: &World) -> (r: i32)
        requires w.sound(),
        ensures
            w.sel@ is None ==> r == -1,
            w.sel@ is Some ==> 0 <= r < w.kids@.len() && w.kids@[r as int] == w.sel@.unwrap(),
    { unimplemented!() }
}
/// a cell, read as what is in it
pub fn vx_cell<T>(x: T) -> (r: T)
    ensures r == x,
{ x }
pub fn vx_drop<T>(x: T) {}
pub trait VxThrow<T>: Sized {
    spec fn fine(&self) -> bool;
    spec fn got(&self) -> T;
    fn unwrap_throw(self) -> (r: T)
        requires self.fine(),
        ensures r == self.got();
}
impl<T, E> VxThrow<T> for Result<T, E> {
    open spec fn fine(&self) -> bool { *self is Ok }
    open spec fn got(&self) -> T { self->Ok_0 }
    fn unwrap_throw(self) -> T
    { match self { Ok(v) => v, Err(_) => vx_unreachable() } }
}
/// the options given: an iterator of pairs
pub struct VxOpts<'t, O> { pub rest: Ghost<Seq<(O, Seq<char>)>>, pub of: PhantomData<&'t O> }
impl<'t, O> VxOpts<'t, O> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<(O, &'t str)>)
        ensures
            r is Some <==> old(self).rest@.len() > 0,
            r is Some ==> (r.unwrap().0, r.unwrap().1@) == old(self).rest@[0] && final(self).rest@ == old(self).rest@.drop_first(),
            r is None ==> final(self).rest@ == old(self).rest@,
    { unimplemented!() }
    pub fn vx_into_iter(self) -> (r: Self)
        ensures r == self,
    { self }
}
pub trait VxCloned<K>: Sized { fn vx_cloned(self) -> Option<K>; }
impl<'a, K: VxKey> VxCloned<K> for Option<&'a K> {
    fn vx_cloned(self) -> (r: Option<K>)
        ensures self is None ==> r is None, self is Some ==> r == Some(*self.unwrap()),
    { match self { Some(k) => Some(k.clone()), None => None } }
}
pub trait VxFlat<K>: Sized { fn vx_flatten(self) -> Option<K>; }
impl<K> VxFlat<K> for Option<Option<K>> {
    fn vx_flatten(self) -> (r: Option<K>)
        ensures r == match self { Some(x) => x, None => None },
    { match self { Some(x) => x, None => None } }
}
pub trait VxOptClone: Sized { fn clone(&self) -> Self; }
impl<K: VxKey> VxOptClone for Option<K> {
    fn clone(&self) -> (r: Self)
        ensures r == *self,
    { match self { Some(k) => Some(k.clone()), None => None } }
}

// ======== lemmas ========
/// the elements of the keys o
pub open spec fn ids<O>(o: Seq<O>, m: Map<O, OptElem>) -> Seq<int> { Seq::new(o.len(), |i: int| m[o[i]].id()) }
/// different keys have different elements, all of them made
pub open spec fn own<O>(m: Map<O, OptElem>, used: Set<int>) -> bool {
    &&& forall|a: O, b: O| m.dom().contains(a) && m.dom().contains(b) && a != b ==> #[trigger] m[a].id() != #[trigger] m[b].id()
    &&& forall|a: O| #[trigger] m.dom().contains(a) ==> used.contains(m[a].id())
}
/// o is there, with the element the map gives for each
pub open spec fn stands<O>(o: Seq<O>, m: Map<O, OptElem>, w: World) -> bool {
    &&& own(m, w.used@) && o.no_duplicates()
    &&& forall|k: O| #[trigger] o.contains(k) ==> m.dom().contains(k)
    &&& w.kids@ == ids(o, m)
    &&& w.sound()
}
proof fn ids_at<O>(o: Seq<O>, m: Map<O, OptElem>, w: World, k: O)
    requires own(m, w.used@), o.no_duplicates(), forall|k: O| #[trigger] o.contains(k) ==> m.dom().contains(k), m.dom().contains(k),
    ensures
        ids(o, m).contains(m[k].id()) == o.contains(k),
        ids(o, m).no_duplicates(),
        o.contains(k) ==> idx(ids(o, m), m[k].id()) == idx(o, k),
        cut(ids(o, m), m[k].id()) == ids(cut(o, k), m),
{
    let s = ids(o, m);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(o.contains(o[i]) && o.contains(o[j])); assert(o[i] != o[j]); }
    if s.contains(m[k].id()) {
        let i = s.index_of(m[k].id());
        assert(s[i] == m[k].id());
        assert(o.contains(o[i]));
        assert(o[i] == k);
    }
    if o.contains(k) {
        at_idx(o, k);
        let i = idx(o, k);
        assert(s[i] == m[k].id());
        idx_at(s, i);
        assert(cut(s, m[k].id()) =~= ids(cut(o, k), m));
    }
}
proof fn ids_cut<O>(o: Seq<O>, m: Map<O, OptElem>, w: World, k: O)
    requires stands(o, m, w), o.contains(k),
    ensures cut(w.kids@, m[k].id()) == ids(cut(o, k), m.remove(k)), w.kids@.contains(m[k].id()),
{
    ids_at(o, m, w, k);
    cut_rank(o, k);
    let c = cut(o, k);
    assert forall|i: int| 0 <= i < c.len() implies c[i] != k by { assert(c.contains(c[i])); }
    assert(ids(c, m) =~= ids(c, m.remove(k)));
}
/// k is put before b
proof fn ids_put<O>(o: Seq<O>, m: Map<O, OptElem>, w: World, k: O, b: Option<O>)
    requires stands(o, m, w), m.dom().contains(k), b is Some ==> o.contains(b.unwrap()) && b.unwrap() != k,
    ensures
        b is Some ==> w.kids@.contains(m[b.unwrap()].id()) && m[b.unwrap()].id() != m[k].id(),
        place(cut(w.kids@, m[k].id()), m[k].id(), match b { Some(b) => Some(m[b].id()), None => None }) == ids(o_put(o, k, b), m),
{
    ids_at(o, m, w, k);
    cut_rank(o, k);
    let c = cut(o, k);
    if let Some(x) = b {
        ids_at(o, m, w, x);
        assert(c.contains(x));
        ids_at(c, m, w, x);
        at_idx(c, x);
    }
    assert(place(ids(c, m), m[k].id(), match b { Some(b) => Some(m[b].id()), None => None }) =~= ids(o_put(o, k, b), m));
}
/// a fresh element for a key that has none
proof fn ids_fresh<O>(o: Seq<O>, m: Map<O, OptElem>, w: World, w1: World, k: O, e: OptElem)
    requires stands(o, m, w), !m.dom().contains(k), !w.used@.contains(e.id()), w1.used@ == w.used@.insert(e.id()), w1.kids == w.kids, w1.sel == w.sel,
    ensures stands(o, m.insert(k, e), w1),
{
    let m1 = m.insert(k, e);
    assert forall|a: O, b: O| m1.dom().contains(a) && m1.dom().contains(b) && a != b implies #[trigger] m1[a].id() != #[trigger] m1[b].id() by {}
    assert forall|i: int| 0 <= i < o.len() implies m1[o[i]] == m[o[i]] by { assert(o.contains(o[i])); }
    assert(ids(o, m1) =~= ids(o, m));
}
proof fn own_less<O>(m: Map<O, OptElem>, w: World, k: O)
    requires own(m, w.used@),
    ensures own(m.remove(k), w.used@),
{
    let m1 = m.remove(k);
    assert forall|a: O, b: O| m1.dom().contains(a) && m1.dom().contains(b) && a != b implies #[trigger] m1[a].id() != #[trigger] m1[b].id() by { assert(m1[a] == m[a]); assert(m1[b] == m[b]); }
}
/// the keys given
pub open spec fn keys<O>(g: Seq<(O, Seq<char>)>) -> Seq<O> { Seq::new(g.len(), |i: int| g[i].0) }
/// the elements of the first n show the texts given
pub open spec fn told<O>(g: Seq<(O, Seq<char>)>, n: int, m: Map<O, OptElem>, texts: Map<int, Seq<char>>) -> bool {
    forall|i: int| 0 <= i < n ==> texts[m[(#[trigger] g[i]).0].id()] == g[i].1
}
/// m1 has the entries of m0 that are left
spec fn same_elems<O>(m0: Map<O, OptElem>, m1: Map<O, OptElem>) -> bool {
    forall|k: O| m0.dom().contains(k) && #[trigger] m1.dom().contains(k) ==> m1[k] == m0[k]
}
pub open spec fn has<O>(g: Seq<(O, Seq<char>)>, n: int, m: Map<O, OptElem>) -> bool { n <= g.len() && forall|i: int| 0 <= i < n ==> m.dom().contains((#[trigger] g[i]).0) }
proof fn told_fresh<O>(g: Seq<(O, Seq<char>)>, n: int, m: Map<O, OptElem>, w: World, w1: World, k: O, e: OptElem)
    requires told(g, n, m, w.texts@), has(g, n, m), own(m, w.used@), !m.dom().contains(k), !w.used@.contains(e.id()), w1.texts@ == w.texts@.insert(e.id(), Seq::empty()),
    ensures told(g, n, m.insert(k, e), w1.texts@), has(g, n, m.insert(k, e)),
{
    let m1 = m.insert(k, e);
    assert forall|i: int| 0 <= i < n implies w1.texts@[m1[(#[trigger] g[i]).0].id()] == g[i].1 by { assert(m.dom().contains(g[i].0)); assert(m1[g[i].0] == m[g[i].0]); }
}
proof fn told_more<O>(g: Seq<(O, Seq<char>)>, n: int, m: Map<O, OptElem>, w: World, w1: World)
    requires told(g, n, m, w.texts@), has(g, n, m), own(m, w.used@), 0 <= n < g.len(), keys(g).no_duplicates(), m.dom().contains(g[n].0), w1.texts@ == w.texts@.insert(m[g[n].0].id(), g[n].1),
    ensures told(g, n + 1, m, w1.texts@), has(g, n + 1, m),
{
    assert forall|i: int| 0 <= i < n + 1 implies w1.texts@[m[(#[trigger] g[i]).0].id()] == g[i].1 by {
        if i < n { assert(keys(g)[i] != keys(g)[n]); assert(m.dom().contains(g[i].0)); assert(m[g[i].0].id() != m[g[n].0].id()); }
    }
}
proof fn told_less<O>(g: Seq<(O, Seq<char>)>, m: Map<O, OptElem>, w: World, k: O)
    requires told(g, g.len() as int, m, w.texts@), has(g, g.len() as int, m), !keys(g).contains(k),
    ensures told(g, g.len() as int, m.remove(k), w.texts@), has(g, g.len() as int, m.remove(k)),
{
    assert forall|i: int| 0 <= i < g.len() implies (#[trigger] g[i]).0 != k by { assert(keys(g)[i] == g[i].0); }
}
proof fn told_all<O>(g: Seq<(O, Seq<char>)>, m: Map<O, OptElem>, w: World)
    requires told(g, g.len() as int, m, w.texts@), forall|i: int| 0 <= i < g.len() ==> !blank((#[trigger] g[i]).1),
    ensures forall|k: O| #[trigger] keys(g).contains(k) ==> !blank(w.texts@[m[k].id()]),
{
    assert forall|k: O| #[trigger] keys(g).contains(k) implies !blank(w.texts@[m[k].id()]) by { let i = keys(g).index_of(k); assert(keys(g)[i] == k); assert(g[i].0 == k); }
}
proof fn ids_nonblank<O>(o: Seq<O>, m: Map<O, OptElem>, w: World)
    requires stands(o, m, w), forall|k: O| #[trigger] o.contains(k) ==> !blank(w.texts@[m[k].id()]),
    ensures
        forall|i: int| #![trigger w.kids@[i]] 0 <= i < w.kids@.len() ==> !blank(w.texts@[w.kids@[i]]),
        forall|k: O| #[trigger] o.contains(k) ==> w.kids@.contains(m[k].id()),
{
    assert forall|i: int| #![trigger w.kids@[i]] 0 <= i < w.kids@.len() implies !blank(w.texts@[w.kids@[i]]) by { assert(o.contains(o[i])); }
    assert forall|k: O| #[trigger] o.contains(k) implies w.kids@.contains(m[k].id()) by { ids_at(o, m, w, k); }
}
proof fn half_facts<O>(o: Seq<O>, T: Seq<O>, P: Seq<O>, S: Set<O>)
    requires half(o, T, P, S),
    ensures o.no_duplicates(), forall|k: O| #[trigger] o.contains(k) <==> T.contains(k) || S.contains(k), forall|k: O| !(#[trigger] T.contains(k) && #[trigger] S.contains(k)),
{}
//@default cell;; pin
#[verifier::reject_recursive_types(O)]
//@struct dr Inner
//@opt generics=<O>
//@endfn
#[verifier::reject_recursive_types(O)]
//@struct dr Dropdown
//@opt generics=<O>;; type=RefCell<Inner<O>>->Inner<O>
//@endfn
impl<O: VxKey> Dropdown<O> {
    spec fn offered(&self) -> Seq<O> { self.inner.prev_opts_list@ }
    /// what is shown are the options remembered, each with the element the map has for it, none with a blank text
    spec fn good(&self, w: World) -> bool {
        &&& stands(self.offered(), self.inner.map@, w)
        &&& forall|k: O| #[trigger] self.inner.map@.dom().contains(k) ==> self.offered().contains(k) && !blank(w.texts@[self.inner.map@[k].id()])
    }
    /// the option selected
    spec fn chosen(&self, w: World, k: O) -> bool { self.offered().contains(k) && w.sel@ == Some(self.inner.map@[k].id()) }
    /// what `value` gives
    spec fn current(&self, w: World) -> Option<O> {
        match w.sel@ { Some(e) => Some(self.offered()[w.kids@.index_of(e)]), None => self.inner.selected }
    }
    proof fn facts(&self, w: World)
        requires self.good(w),
        ensures
            w.kids@.no_duplicates(), w.kids@.len() == self.offered().len(),
            forall|i: int| #![trigger w.kids@[i]] 0 <= i < w.kids@.len() ==> !blank(w.texts@[w.kids@[i]]),
            forall|k: O| #[trigger] self.inner.map@.dom().contains(k) ==> w.kids@.contains(self.inner.map@[k].id()),
            forall|i: int| #![trigger w.kids@[i]] 0 <= i < w.kids@.len() ==> w.kids@.index_of(w.kids@[i]) == i,
            forall|k: O| #[trigger] self.chosen(w, k) ==> self.current(w) == Some(k),
    {
        let (o, m) = (self.offered(), self.inner.map@);
        assert(w.kids@ == ids(o, m));
        assert(w.kids@.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies w.kids@[i] != w.kids@[j] by { assert(o.contains(o[i]) && o.contains(o[j])); assert(m.dom().contains(o[i]) && m.dom().contains(o[j])); }
        }
        assert forall|i: int| #![trigger w.kids@[i]] 0 <= i < w.kids@.len() implies !blank(w.texts@[w.kids@[i]]) && w.kids@.index_of(w.kids@[i]) == i by { assert(o.contains(o[i])); assert(m.dom().contains(o[i])); idx_at(w.kids@, i); }
        assert forall|k: O| #[trigger] m.dom().contains(k) implies w.kids@.contains(m[k].id()) by { at_idx(o, k); assert(w.kids@[idx(o, k)] == m[k].id()); }
        assert forall|k: O| #[trigger] self.chosen(w, k) implies self.current(w) == Some(k) by { at_idx(o, k); assert(w.kids@[idx(o, k)] == m[k].id()); }
    }
//@fn dr Dropdown::new
//@opt addparam=w: &mut World;; expr=Select::new()->Select::new(w);; call=RefCell::new->vx_cell
//@spec
    ensures
        r.good(*final(w)), // [U03]
        r.offered() == Seq::<O>::empty(), // [U03]
        r.current(*final(w)) is None, // [U03]
//@end
    proof { assert(w.kids@ =~= ids(Seq::<O>::empty(), Map::<O, OptElem>::empty())); }
//@endfn
//@fn dr Dropdown::contains_key
//@opt generics=;; where=;; param=key: &O
//@spec
    ensures
        forall|w: World| #[trigger] self.good(w) ==> r == self.offered().contains(*key), // [U03]
//@endfn
//@fn dr Dropdown::value
//@opt addparam=w: &World;; passto=select.selected_index:w;; opt=then,or_else,map,and_then;; rename=cloned:vx_cloned,flatten:vx_flatten
//@spec
    requires self.good(*w),
    ensures
        r == self.current(*w), // [U03]
        forall|k: O| #[trigger] self.chosen(*w, k) ==> r == Some(k), // [U03]
//@begin
    proof { self.facts(*w); reveal_strlit(""); }
//@endfn
//@fn dr Dropdown::set_value
//@opt self=mut;; addparam=w: &mut World;; passto=set_selected:w;; passto=select.set_value:w;; passto=select.set_selected_index:w;; call=drop->vx_drop
//@spec
    requires old(self).good(*old(w)),
    ensures
        final(self).good(*final(w)), // [U03]
        final(w).but_sel(*old(w)), // [U03]
        final(self).offered() == old(self).offered(), final(self).inner.map@ == old(self).inner.map@, // [U03]
        opt is Some && old(self).offered().contains(opt.unwrap()) ==> final(self).chosen(*final(w), opt.unwrap()), // [U03]
        !(opt is Some && old(self).offered().contains(opt.unwrap())) ==> final(w).sel@ is None && final(self).current(*final(w)) is None, // [U03]
//@begin
    proof { self.facts(*w); reveal_strlit(""); }
//@endfn
//@fn dr Dropdown::update_options
//@opt self=mut;; param=new_opts: VxOpts<'t, O>;; chain=iter.peekable->vx_peekable,iter.collect->vx_set;; opt=map,and_then;; expr=OptElem::new()->OptElem::new(w);; passto=value:w;; passto=select.insert_before:w;; passto=select.remove_child:w;; passto=select.set_value:w;; passto=select.set_selected_index:w;; passto=set_text_content:w;; passto=set_selected:w;; addparam=w: &mut World;; attr=#[verifier::exec_allows_no_decreases_clause]
//@spec
    requires
        old(self).good(*old(w)),
        keys(new_opts.rest@).no_duplicates(), forall|i: int| 0 <= i < new_opts.rest@.len() ==> !blank((#[trigger] new_opts.rest@[i]).1),
    ensures
        final(self).good(*final(w)), // [U03]
        // the options given, in that order, each with the text given
        final(self).offered() == keys(new_opts.rest@), // [U03]
        told(new_opts.rest@, new_opts.rest@.len() as int, final(self).inner.map@, final(w).texts@), // [U03]
        // those that were there keep their elements
        same_elems(old(self).inner.map@, final(self).inner.map@), // [U03]
        // the value is kept if it is still offered; nothing is selected otherwise
        old(self).current(*old(w)) is Some && final(self).offered().contains(old(self).current(*old(w)).unwrap()) ==> final(self).chosen(*final(w), old(self).current(*old(w)).unwrap()), // [U03]
        !(old(self).current(*old(w)) is Some && final(self).offered().contains(old(self).current(*old(w)).unwrap())) ==> final(w).sel@ is None, // [U03]
//@begin
    hide(Seq::contains); hide(Seq::index_of); hide(Seq::no_duplicates); hide(place); hide(cut); hide(half); hide(own); hide(ids); hide(same_elems); hide(told); hide(has);
    let ghost g = new_opts.rest@; let ghost N = keys(g); let ghost P = self.offered(); let ghost m0 = self.inner.map@; let ghost v0 = self.current(*w); let ghost mut o: Seq<O> = P; let ghost mut left: Set<O> = Set::empty(); let ghost mut i: int = 0;
//@loopbefore 0
    proof {
        assert(N.take(0) =~= Seq::<O>::empty());
        reveal(half); reveal(own); reveal(same_elems); reveal(told); reveal(has); reveal_strlit(""); reveal(Seq::contains); reveal(Seq::no_duplicates);
        half_start(P, prev_opts_set@);
        assert forall|k: O| #[trigger] prev_opts_set@.contains(k) implies idx(P, k) >= 0 by { at_idx(P, k); }
        assert(g.skip(0) =~= g);
    }
//@loop 0
    invariant
        stands(o, map@, *w), half(o, N.take(i), P, prev_opts_set@),
        P == prev_opts_list@, N == keys(g), P.no_duplicates(), N.no_duplicates(), 0 <= i <= g.len(), __it1.rest@ == g.skip(i), new_opts_list@ == N.take(i),
        forall|k: O| #[trigger] prev_opts_set@.contains(k) ==> P.contains(k) && idx(P, k) >= prev_opts_iter.i,
        same_elems(m0, map@), forall|k: O| #[trigger] m0.dom().contains(k) <==> P.contains(k), forall|k: O| #[trigger] map@.dom().contains(k) <==> o.contains(k),
        forall|k: O| #[trigger] P.contains(k) ==> N.take(i).contains(k) || prev_opts_set@.contains(k),
        told(g, i, map@, w.texts@), has(g, i, map@), *selected == v0,
        prev_opts_iter.v == &*prev_opts_list, prev_opts_iter.i <= P.len(),
    ensures
        i == g.len(),
//@loop 1
    invariant
        half(o, N.take(i), P, prev_opts_set@),
        P == prev_opts_list@, P.no_duplicates(),
        forall|k: O| #[trigger] prev_opts_set@.contains(k) ==> P.contains(k) && idx(P, k) >= prev_opts_iter.i,
        prev_opts_iter.v == &*prev_opts_list, prev_opts_iter.i <= P.len(),
    ensures
        prev_opts_iter.i >= P.len() || prev_opts_set@.contains(P[prev_opts_iter.i as int]),
//@loopstart 1
    proof { assert forall|k: O| #[trigger] prev_opts_set@.contains(k) && idx(P, k) == prev_opts_iter.i implies k == P[prev_opts_iter.i as int] by { at_idx(P, k); } }
//@before let should_put
    let ghost T = N.take(i); let ghost S = prev_opts_set@; let ghost j = prev_opts_iter.i as int; let ghost o1 = o; let ghost w1 = *w; let ghost m1 = map@;
    let ghost b = if j < P.len() { Some(P[j]) } else { None };
    proof {
        assert(g.skip(i)[0] == g[i]); assert(g.skip(i).drop_first() =~= g.skip(i + 1));
        assert(opt == N[i]);
        assert(N.take(i + 1) =~= T.push(opt));
        taken(N, i);
        assert forall|y: O| #[trigger] S.contains(y) && b is Some && y != b.unwrap() implies bef(P, b.unwrap(), y) by { at_idx(P, y); idx_at(P, j); }
        assert forall|y: O| #[trigger] S.contains(y) implies b is Some by { at_idx(P, y); }
        assert(!S.contains(opt) ==> S.remove(opt) =~= S);
        assert(m1.dom().contains(opt) == S.contains(opt)) by { reveal(half); assert(o1.contains(opt) == (T.contains(opt) || S.contains(opt))); }
        half_push(T, opt);
        assert(S.contains(opt) ==> P.contains(opt));
        half_facts(o1, T, P, S);
    }
//@after map.insert(
    proof {
        ids_fresh(o1, m1, w1, *w, opt, map@[opt]);
        told_fresh(g, i, m1, w1, *w, opt, map@[opt]);
        reveal(same_elems);
        assert(!P.contains(opt));
    }
//@after let should_put
    let ghost m2 = map@;
    let ghost w2 = *w;
    proof {
        if should_put {
            half_put(o1, T, P, S, opt, b);
            ids_put(o1, m2, w2, opt, b);
            o = o_put(o1, opt, b);
            half_facts(o, T.push(opt), P, prev_opts_set@);
        } else {
            half_stay(o1, T, P, S, opt);
        }
        assert forall|k: O| #[trigger] prev_opts_set@.contains(k) implies idx(P, k) >= prev_opts_iter.i by { at_idx(P, k); }
    }
//@after set_text_content(
    proof { told_more(g, i, map@, w2, *w); i = i + 1; assert(new_opts_list@.push(opt) =~= N.take(i)); }
//@before prev_opts_set.drain(
    proof { left = prev_opts_set@; assert(N.take(N.len() as int) =~= N); }
//@loop 2
    invariant
        stands(o, map@, *w), half(o, N, P, left),
        forall|k: O| #[trigger] left.contains(k) <==> __it2.left@.contains(k), __it2.left@.no_duplicates(),
        forall|k: O| #[trigger] left.contains(k) ==> P.contains(k),
        P == prev_opts_list@, N == keys(g), P.no_duplicates(), N.no_duplicates(), new_opts_list@ == N,
        same_elems(m0, map@), forall|k: O| #[trigger] m0.dom().contains(k) <==> P.contains(k), forall|k: O| #[trigger] map@.dom().contains(k) <==> o.contains(k),
        told(g, g.len() as int, map@, w.texts@), has(g, g.len() as int, map@), *selected == v0,
    ensures
        forall|k: O| !#[trigger] left.contains(k),
//@loopstart 2
    let ghost m1 = map@; let ghost w1 = *w; let ghost l1 = __it2.left@; let ghost o1 = o;
    proof { half_facts(o1, N, P, left); if l1.len() > 0 { idx_at(l1, 0); ids_cut(o1, m1, w1, l1[0]); own_less(m1, w1, l1[0]); half_drop(o1, N, P, left, l1[0]); cut_first(l1); cut_rank(l1, l1[0]); idx_at(l1, 0); } else { none_in(l1); } }
//@before self.select.remove_child(
    proof { idx_at(l1, 0); }
//@after self.select.remove_child(
    proof {
        half_facts(cut(o1, *opt), N, P, left.remove(*opt));
        o = cut(o1, *opt);
        told_less(g, m1, w1, *opt);
        left = left.remove(*opt);
        reveal(same_elems);
    }
//@before =*prev_opts_list = new_opts_list;
    let ghost w3 = *w;
    proof { half_done(o, N, P, left); told_all(g, map@, *w); ids_nonblank(o, map@, *w); }
//@endfn
}
} // verus!
