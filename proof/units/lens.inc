//@nodefault
//@default cell;; lens;; opt=map,and_then;; passto=path_borrow:root;; passto=path_borrow_mut:root
verus! {
// ======== trusted contracts on std containers ========
pub struct Vec<T> { pub s: Ghost<Seq<T>> }
impl<T> Vec<T> {
    pub open spec fn has(self, i: usize) -> bool { i < self.s@.len() }
    pub open spec fn item(self, i: usize) -> T { self.s@[i as int] }
    pub open spec fn with(self, i: usize, x: T) -> Self { Vec { s: Ghost(self.s@.update(i as int, x)) } }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures r is Some <==> self.has(i), r is Some ==> *r.unwrap() == self.item(i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures
            r is Some <==> old(self).has(i),
            r is Some ==> *r.unwrap() == old(self).item(i) && *final(self) == old(self).with(i, *final(r.unwrap())),
            r is None ==> *final(self) == *old(self),
    { unimplemented!() }
}
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>> }
impl<K, V> HashMap<K, V> {
    pub open spec fn has(self, k: K) -> bool { self.m@.contains_key(k) }
    pub open spec fn item(self, k: K) -> V { self.m@[k] }
    pub open spec fn with(self, k: K, v: V) -> Self { HashMap { m: Ghost(self.m@.insert(k, v)) } }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self.has(*k), r is Some ==> *r.unwrap() == self.item(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            r is Some <==> old(self).has(*k),
            r is Some ==> *r.unwrap() == old(self).item(*k) && *final(self) == old(self).with(*k, *final(r.unwrap())),
            r is None ==> *final(self) == *old(self),
    { unimplemented!() }
}
/// an Rc and whether it is the only one
pub struct Rc<T> { pub val: T, pub sole: Ghost<bool> }
impl<T> Rc<T> {
    #[verifier::external_body]
    pub fn get_mut(this: &mut Rc<T>) -> (r: Option<&mut T>)
        ensures
            r is Some <==> old(this).sole@,
            r is Some ==> *r.unwrap() == old(this).val && *final(this) == (Rc { val: *final(r.unwrap()), sole: old(this).sole }),
            r is None ==> *final(this) == *old(this),
    { unimplemented!() }
}
impl<T> Inner for Rc<T> {
    type Target = T;
    spec fn inner(self) -> T { self.val }
    fn vx_deref(&self) -> (r: &T) { &self.val }
}
/// Deref: what it points at
trait Inner: Sized {
    type Target;
    spec fn inner(self) -> Self::Target;
    fn vx_deref(&self) -> (r: &Self::Target)
        ensures *r == self.inner();
}
/// DerefMut
trait InnerMut: Inner {
    spec fn with(self, x: Self::Target) -> Self;
    proof fn deref_laws(self, x: Self::Target, y: Self::Target)
        ensures
            self.with(x).inner() == x,
            self.with(self.inner()) == self,
            self.with(x).with(y) == self.with(y);
    fn vx_deref_mut(&mut self) -> (r: &mut Self::Target)
        ensures *r == old(self).inner(), *final(self) == old(self).with(*final(r));
}
impl<T> Inner for Box<T> {
    type Target = T;
    spec fn inner(self) -> T { *self }
    fn vx_deref(&self) -> (r: &T) { &**self }
}
impl<T> InnerMut for Box<T> {
    spec fn with(self, x: T) -> Self { Box::new(x) }
    proof fn deref_laws(self, x: T, y: T) {}
    fn vx_deref_mut(&mut self) -> (r: &mut T) { &mut **self }
}

} // verus!
//@include lens_path.inc
verus! {
// ======== the store itself ========
//@struct st Store
//@opt dropfield=data;; dropfield=wakers;; addfield=p: std::marker::PhantomData<S>
//@endfn
//@struct st RootPath
//@endfn
impl<'s, S> Path for RootPath<'s, S> {
    type Base = S;
    type Out = S;
    spec fn at(&self, s: S) -> Option<S> { Some(s) }
    spec fn open(&self, s: S) -> bool { true }
    spec fn put(&self, s: S, x: S) -> S { x }
    proof fn laws(&self, s: S, x: S, y: S) {}
//@fn st RootPath::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b S) -> (r: Option<&'b S>);; expr=self.store.data.borrow()->root
//@endfn
//@fn st RootPath::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut S) -> (r: Option<&'b mut S>);; expr=self.store.data.borrow_mut()->root
//@endfn
}
// ======== an element of a vector ========
#[verifier::reject_recursive_types(T)]
//@struct ve VecIndexMapper
//@opt generics=<T, P: Path<Out = Vec<T>>>
//@endfn
impl<T, P: Path<Out = Vec<T>>> Path for VecIndexMapper<T, P> {
    type Base = P::Base;
    type Out = T;
    spec fn at(&self, s: P::Base) -> Option<T> {
        match self.parent.at(s) { Some(v) => if v.has(self.index) { Some(v.item(self.index)) } else { None }, None => None }
    }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && self.parent.at(s).unwrap().has(self.index) }
    spec fn put(&self, s: P::Base, x: T) -> P::Base { self.parent.put(s, self.parent.at(s).unwrap().with(self.index, x)) }
    proof fn laws(&self, s: P::Base, x: T, y: T) {
        let v = self.parent.at(s).unwrap();
        let i = self.index;
        self.parent.laws(s, v.with(i, x), v.with(i, y));
        if self.open(s) {
            assert(v.with(i, v.item(i)).s@ =~= v.s@);
            assert(v.with(i, x).with(i, y).s@ =~= v.with(i, y).s@);
        }
    }
//@fn ve VecIndexMapper::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T>)
//@endfn
//@fn ve VecIndexMapper::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== the value under a key ========
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@struct hm HashMapKeyMapper
//@opt generics=<K, V, P: Path<Out = HashMap<K, V>>>
//@endfn
impl<K: 'static, V, P: Path<Out = HashMap<K, V>>> Path for HashMapKeyMapper<K, V, P> {
    type Base = P::Base;
    type Out = V;
    spec fn at(&self, s: P::Base) -> Option<V> {
        match self.parent.at(s) { Some(v) => if v.has(self.key) { Some(v.item(self.key)) } else { None }, None => None }
    }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && self.parent.at(s).unwrap().has(self.key) }
    spec fn put(&self, s: P::Base, x: V) -> P::Base { self.parent.put(s, self.parent.at(s).unwrap().with(self.key, x)) }
    proof fn laws(&self, s: P::Base, x: V, y: V) {
        let v = self.parent.at(s).unwrap();
        let i = self.key;
        self.parent.laws(s, v.with(i, x), v.with(i, y));
        if self.open(s) {
            assert(v.with(i, v.item(i)).m@ =~= v.m@);
            assert(v.with(i, x).with(i, y).m@ =~= v.with(i, y).m@);
        }
    }
//@fn hm HashMapKeyMapper::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b V>)
//@endfn
//@fn hm HashMapKeyMapper::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut V>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== the content of an Rc ========
#[verifier::reject_recursive_types(T)]
//@struct rc RcMapper
//@opt generics=<T, P: Path<Out = Rc<T>>>
//@endfn
impl<T, P: Path<Out = Rc<T>>> Path for RcMapper<T, P> {
    type Base = P::Base;
    type Out = T;
    spec fn at(&self, s: P::Base) -> Option<T> { match self.parent.at(s) { Some(v) => Some(v.val), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && self.parent.at(s).unwrap().sole@ }
    spec fn put(&self, s: P::Base, x: T) -> P::Base { self.parent.put(s, Rc { val: x, sole: self.parent.at(s).unwrap().sole }) }
    proof fn laws(&self, s: P::Base, x: T, y: T) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, Rc { val: x, sole: v.sole }, Rc { val: y, sole: v.sole });
    }
//@fn rc RcMapper::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T>);; expr=&**rc->rc.vx_deref()
//@endfn
//@fn rc RcMapper::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== the content of a Box ========
#[verifier::reject_recursive_types(T)]
//@struct tr TransparentDerefMapper
//@opt generics=<T, P: Path<Out = T>>;; addfield=p: std::marker::PhantomData<T>
//@endfn
impl<T: InnerMut + 'static, P: Path<Out = T>> Path for TransparentDerefMapper<T, P> {
    type Base = P::Base;
    type Out = T::Target;
    spec fn at(&self, s: P::Base) -> Option<T::Target> { match self.parent.at(s) { Some(v) => Some(v.inner()), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T::Target) -> P::Base { self.parent.put(s, self.parent.at(s).unwrap().with(x)) }
    proof fn laws(&self, s: P::Base, x: T::Target, y: T::Target) {
        let v = self.parent.at(s).unwrap();
        v.deref_laws(x, y);
        self.parent.laws(s, v.with(x), v.with(y));
    }
//@fn tr TransparentDerefMapper::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T::Target>);; expr=&**t->t.vx_deref()
//@endfn
//@fn tr TransparentDerefMapper::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T::Target>);; expr=&mut **t->t.vx_deref_mut()
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== paths by reference, and boxed paths ========
//@struct pi ReferencePath
//@opt generics=<'r, P: Path>
//@endfn
impl<'r, P: Path> Path for ReferencePath<'r, P> {
    type Base = P::Base;
    type Out = P::Out;
    spec fn at(&self, s: P::Base) -> Option<P::Out> { self.0.at(s) }
    spec fn open(&self, s: P::Base) -> bool { self.0.open(s) }
    spec fn put(&self, s: P::Base, x: P::Out) -> P::Base { self.0.put(s, x) }
    proof fn laws(&self, s: P::Base, x: P::Out, y: P::Out) { self.0.laws(s, x, y); }
//@fn pi ReferencePath::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b P::Out>)
//@endfn
//@fn pi ReferencePath::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut P::Out>)
//@endfn
}
/// Rc<dyn Path> and Box<dyn Path> (Held reads the trait object as a path of an unknown type)
struct RcDyn<P> { p: P }
impl<P: Path> Path for RcDyn<P> {
    type Base = P::Base;
    type Out = P::Out;
    spec fn at(&self, s: P::Base) -> Option<P::Out> { self.p.at(s) }
    spec fn open(&self, s: P::Base) -> bool { self.p.open(s) }
    spec fn put(&self, s: P::Base, x: P::Out) -> P::Base { self.p.put(s, x) }
    proof fn laws(&self, s: P::Base, x: P::Out, y: P::Out) { self.p.laws(s, x, y); }
//@fn pi Rc::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b P::Out>);; expr=(**self)->self.p
//@endfn
//@fn pi Rc::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut P::Out>);; expr=(**self)->self.p
//@endfn
}
struct BoxDyn<P> { p: P }
impl<P: Path> Path for BoxDyn<P> {
    type Base = P::Base;
    type Out = P::Out;
    spec fn at(&self, s: P::Base) -> Option<P::Out> { self.p.at(s) }
    spec fn open(&self, s: P::Base) -> bool { self.p.open(s) }
    spec fn put(&self, s: P::Base, x: P::Out) -> P::Base { self.p.put(s, x) }
    proof fn laws(&self, s: P::Base, x: P::Out, y: P::Out) { self.p.laws(s, x, y); }
//@fn pi Box::Path::path_borrow
//@opt sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b P::Out>);; expr=(**self)->self.p
//@endfn
//@fn pi Box::Path::path_borrow_mut
//@opt sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut P::Out>);; expr=(**self)->self.p
//@endfn
}
// ======== derived: a field of a struct (field any member, rest all the others) ========
struct Record<A, B> { field: A, rest: B }
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
struct FieldMapper<A, B, P: Path<Out = Record<A, B>>> { parent: P, p: std::marker::PhantomData<(A, B)> }
impl<A, B: 'static, P: Path<Out = Record<A, B>>> Path for FieldMapper<A, B, P> {
    type Base = P::Base;
    type Out = A;
    spec fn at(&self, s: P::Base) -> Option<A> { match self.parent.at(s) { Some(v) => Some(v.field), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: A) -> P::Base { self.parent.put(s, Record { field: x, rest: self.parent.at(s).unwrap().rest }) }
    proof fn laws(&self, s: P::Base, x: A, y: A) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, Record { field: x, rest: v.rest }, Record { field: y, rest: v.rest });
    }
//@fn gen quote::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access->quote:#input.#member;; interp=mut_token->;; interp=ref_or_refmut->Ref;; interp=member->field
//@endfn
//@fn gen quote::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access_mut->quote:#input.#member;; interp=mut_token->mut;; interp=ref_or_refmut->RefMut;; interp=member->field
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== derived: a field of an enum's variant ========
enum Choice<A, B, C> { Here { field: A, rest: B }, Pos(B, A, C), Other(C) }
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(C)]
struct NamedMapper<A, B, C, P: Path<Out = Choice<A, B, C>>> { parent: P, p: std::marker::PhantomData<(A, B, C)> }
impl<A, B: 'static, C: 'static, P: Path<Out = Choice<A, B, C>>> Path for NamedMapper<A, B, C, P> {
    type Base = P::Base;
    type Out = A;
    spec fn at(&self, s: P::Base) -> Option<A> { match self.parent.at(s) { Some(Choice::Here { field, .. }) => Some(field), _ => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && self.parent.at(s).unwrap() is Here }
    spec fn put(&self, s: P::Base, x: A) -> P::Base { self.parent.put(s, Choice::Here { field: x, rest: self.parent.at(s).unwrap()->rest }) }
    proof fn laws(&self, s: P::Base, x: A, y: A) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, Choice::Here { field: x, rest: v->rest }, Choice::Here { field: y, rest: v->rest });
    }
//@fn gen quote::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access->quote:match#input;; interp=match_inner->quote:{#field_name,..};; interp=ref_or_refmut->Ref;; interp=type_name->Choice;; interp=variant_name->Here;; interp=field_name->field
//@endfn
//@fn gen quote::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access_mut->quote:match#input;; interp=match_inner->quote:{#field_name,..};; interp=ref_or_refmut->RefMut;; interp=type_name->Choice;; interp=variant_name->Here;; interp=field_name->field
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(C)]
struct PosMapper<A, B, C, P: Path<Out = Choice<A, B, C>>> { parent: P, p: std::marker::PhantomData<(A, B, C)> }
impl<A, B: 'static, C: 'static, P: Path<Out = Choice<A, B, C>>> Path for PosMapper<A, B, C, P> {
    type Base = P::Base;
    type Out = A;
    spec fn at(&self, s: P::Base) -> Option<A> { match self.parent.at(s) { Some(Choice::Pos(_, a, _)) => Some(a), _ => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && self.parent.at(s).unwrap() is Pos }
    spec fn put(&self, s: P::Base, x: A) -> P::Base { let v = self.parent.at(s).unwrap(); self.parent.put(s, Choice::Pos(v->Pos_0, x, v->Pos_2)) }
    proof fn laws(&self, s: P::Base, x: A, y: A) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, Choice::Pos(v->Pos_0, x, v->Pos_2), Choice::Pos(v->Pos_0, y, v->Pos_2));
    }
//@fn gen quote::path_borrow
//@opt ufcs=Path;; reps=1;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access->quote:match#input;; interp=match_inner->quote:#underscores;; interp=underscores->_;; interp=ref_or_refmut->Ref;; interp=type_name->Choice;; interp=variant_name->Pos
//@endfn
//@fn gen quote::path_borrow_mut
//@opt ufcs=Path;; reps=1;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut A>);; interp=prefix->crate;; interp=parent_value_name->parent;; interp=input_ident->input;; interp=input->input;; interp=access_mut->quote:match#input;; interp=match_inner->quote:#underscores;; interp=underscores->_;; interp=ref_or_refmut->RefMut;; interp=type_name->Choice;; interp=variant_name->Pos
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
// ======== nothing outside a path is touched by setting it ========
/// a path that extends another one
trait Step: Path {
    type Parent: Path<Base = Self::Base>;
    spec fn up(&self) -> Self::Parent;
    /// setting it is setting its parent, to something
    proof fn through(&self, s: Self::Base, y: Self::Out) -> (x: <Self::Parent as Path>::Out)
        requires self.open(s),
        ensures self.up().open(s), self.put(s, y) == self.up().put(s, x);
    /// it only depends on what its parent names
    proof fn same(&self, s: Self::Base, t: Self::Base)
        requires self.up().at(s) == self.up().at(t), self.up().open(s) == self.up().open(t),
        ensures self.at(s) == self.at(t), self.open(s) == self.open(t);
}
impl<T, P: Path<Out = Vec<T>>> Step for VecIndexMapper<T, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { self.parent.at(s).unwrap().with(self.index, y) }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<K: 'static, V, P: Path<Out = HashMap<K, V>>> Step for HashMapKeyMapper<K, V, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { self.parent.at(s).unwrap().with(self.key, y) }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<T, P: Path<Out = Rc<T>>> Step for RcMapper<T, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { Rc { val: y, sole: self.parent.at(s).unwrap().sole } }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<T: InnerMut + 'static, P: Path<Out = T>> Step for TransparentDerefMapper<T, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { self.parent.at(s).unwrap().with(y) }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<A, B: 'static, P: Path<Out = Record<A, B>>> Step for FieldMapper<A, B, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { Record { field: y, rest: self.parent.at(s).unwrap().rest } }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<A, B: 'static, C: 'static, P: Path<Out = Choice<A, B, C>>> Step for NamedMapper<A, B, C, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { Choice::Here { field: y, rest: self.parent.at(s).unwrap()->rest } }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
impl<A, B: 'static, C: 'static, P: Path<Out = Choice<A, B, C>>> Step for PosMapper<A, B, C, P> {
    type Parent = P;
    spec fn up(&self) -> P { self.parent }
    proof fn through(&self, s: P::Base, y: Self::Out) -> (x: P::Out) { Choice::Pos(self.parent.at(s).unwrap()->Pos_0, y, self.parent.at(s).unwrap()->Pos_2) }
    proof fn same(&self, s: P::Base, t: P::Base) {}
}
/// two paths away from each other: setting either leaves the other as it is
spec fn apart<A: Path, B: Path<Base = A::Base>>(a: A, b: B) -> bool {
    forall|s: A::Base, x: A::Out| a.open(s) ==> b.at(#[trigger] a.put(s, x)) == b.at(s) && b.open(a.put(s, x)) == b.open(s)
}
/// extending two paths that are apart keeps them apart
proof fn apart_left<A: Step, B: Path<Base = A::Base>>(a: A, b: B)
    requires apart(a.up(), b),
    ensures apart(a, b),
{
    assert forall|s: A::Base, x: A::Out| a.open(s) implies b.at(#[trigger] a.put(s, x)) == b.at(s) && b.open(a.put(s, x)) == b.open(s) by {
        let y = a.through(s, x);
    }
}
proof fn apart_right<A: Path, B: Step<Base = A::Base>>(a: A, b: B)
    requires apart(a, b.up()),
    ensures apart(a, b),
{
    assert forall|s: A::Base, x: A::Out| a.open(s) implies b.at(#[trigger] a.put(s, x)) == b.at(s) && b.open(a.put(s, x)) == b.open(s) by {
        b.same(s, a.put(s, x));
    }
}
/// different elements, keys and fields are apart
proof fn elements<T, P: Path<Out = Vec<T>>>(a: VecIndexMapper<T, P>, b: VecIndexMapper<T, P>)
    requires a.parent == b.parent, a.index != b.index,
    ensures apart(a, b),
{
    assert forall|s: P::Base, x: T| a.open(s) implies b.at(#[trigger] a.put(s, x)) == b.at(s) && b.open(a.put(s, x)) == b.open(s) by {
        let v = a.parent.at(s).unwrap();
        a.parent.laws(s, v.with(a.index, x), v);
    }
}
proof fn keys<K: 'static, V, P: Path<Out = HashMap<K, V>>>(a: HashMapKeyMapper<K, V, P>, b: HashMapKeyMapper<K, V, P>)
    requires a.parent == b.parent, a.key != b.key,
    ensures apart(a, b),
{
    assert forall|s: P::Base, x: V| a.open(s) implies b.at(#[trigger] a.put(s, x)) == b.at(s) && b.open(a.put(s, x)) == b.open(s) by {
        let v = a.parent.at(s).unwrap();
        a.parent.laws(s, v.with(a.key, x), v);
    }
}
/// the number of elements, the other elements, the other fields, the variant
proof fn rest_of_vec<T, P: Path<Out = Vec<T>>>(a: VecIndexMapper<T, P>, s: P::Base, x: T)
    requires a.open(s),
    ensures a.parent.at(a.put(s, x)).unwrap().s@ == a.parent.at(s).unwrap().s@.update(a.index as int, x),
{ let v = a.parent.at(s).unwrap(); a.parent.laws(s, v.with(a.index, x), v); }
proof fn rest_of_map<K: 'static, V, P: Path<Out = HashMap<K, V>>>(a: HashMapKeyMapper<K, V, P>, s: P::Base, x: V)
    requires a.open(s),
    ensures a.parent.at(a.put(s, x)).unwrap().m@ == a.parent.at(s).unwrap().m@.insert(a.key, x),
{ let v = a.parent.at(s).unwrap(); a.parent.laws(s, v.with(a.key, x), v); }
proof fn rest_of_record<A, B: 'static, P: Path<Out = Record<A, B>>>(a: FieldMapper<A, B, P>, s: P::Base, x: A)
    requires a.open(s),
    ensures a.parent.at(a.put(s, x)).unwrap().rest == a.parent.at(s).unwrap().rest,
{ let v = a.parent.at(s).unwrap(); a.parent.laws(s, Record { field: x, rest: v.rest }, v); }
proof fn rest_of_variant<A, B: 'static, C: 'static, P: Path<Out = Choice<A, B, C>>>(a: NamedMapper<A, B, C, P>, b: PosMapper<A, B, C, P>, s: P::Base, x: A)
    ensures
        a.open(s) ==> a.parent.at(a.put(s, x)).unwrap() == (Choice::<A, B, C>::Here { field: x, rest: a.parent.at(s).unwrap()->rest }),
        b.open(s) ==> b.parent.at(b.put(s, x)).unwrap() == Choice::<A, B, C>::Pos(b.parent.at(s).unwrap()->Pos_0, x, b.parent.at(s).unwrap()->Pos_2),
        a.parent == b.parent ==> !(a.at(s) is Some && b.at(s) is Some),
{
    let v = a.parent.at(s).unwrap(); a.parent.laws(s, Choice::Here { field: x, rest: v->rest }, v);
    let u = b.parent.at(s).unwrap(); b.parent.laws(s, Choice::Pos(u->Pos_0, x, u->Pos_2), u);
}
// ======== paths that always name something ========
trait Guaranteed: Path {
    proof fn sure(&self, s: Self::Base)
        ensures self.open(s) && self.at(s) is Some;
}
impl<'s, S> Guaranteed for RootPath<'s, S> { proof fn sure(&self, s: S) {} }
impl<T: InnerMut + 'static, P: Guaranteed<Out = T>> Guaranteed for TransparentDerefMapper<T, P> { proof fn sure(&self, s: P::Base) { self.parent.sure(s); } }
impl<'r, P: Guaranteed> Guaranteed for ReferencePath<'r, P> { proof fn sure(&self, s: P::Base) { self.0.sure(s); } }
impl<A, B: 'static, P: Guaranteed<Out = Record<A, B>>> Guaranteed for FieldMapper<A, B, P> { proof fn sure(&self, s: P::Base) { self.parent.sure(s); } }
// ======== what xeach takes for granted of a path with data ========
proof fn data_path<P: Path>(p: P, s: P::Base, x: P::Out)
    ensures p.open(s) ==> p.at(s) is Some && p.at(p.put(s, x)) == Some(x) && p.open(p.put(s, x)),
{ p.laws(s, x, x); }
// ======== path builders ========
/// T::PathBuilder<P>, for a type T not known: it holds the path it was given (proved below for each of the library's)
struct Built<P> { path: P }
fn new_path_builder<P>(parent: P) -> (r: Built<P>)
    ensures r.path == parent,
{ Built { path: parent } }
//@struct le LeafPathBuilder
//@endfn
impl<P: Path> LeafPathBuilder<P> {
//@fn le LeafPathBuilder::new
//@spec
    ensures r.inner_path == parent,
//@endfn
//@fn le LeafPathBuilder::Deref::deref
//@opt ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
//@fn hp quote::into_path
//@opt interp=first_field_name->inner_path;; ret=P
//@spec
    ensures r == self.inner_path,
//@endfn
}
//@fn le T::TrackableLeaf::new_path_builder
//@opt sig=fn leaf_builder<P: Path>(parent: P) -> (r: LeafPathBuilder<P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
#[verifier::reject_recursive_types(T)]
//@struct ve VecPathBuilder
//@opt generics=<T, P: Path<Out = Vec<T>>>
//@endfn
impl<T, P: Path<Out = Vec<T>>> VecPathBuilder<T, P> {
//@fn ve VecPathBuilder::Deref::deref
//@opt ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
//@fn ve VecPathBuilder::index
//@opt sig=fn index(self, index: usize) -> (r: Built<VecIndexMapper<T, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.path.parent == self.inner_path, r.path.index == index,
//@endfn
//@fn ve VecPathBuilder::index_shallow
//@opt sig=fn index_shallow(self, index: usize) -> (r: LeafPathBuilder<VecIndexMapper<T, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.inner_path.parent == self.inner_path, r.inner_path.index == index,
//@endfn
}
//@fn ve Vec::Trackable::new_path_builder
//@opt sig=fn vecpathbuilder_new<T, P: Path<Out = Vec<T>>>(parent: P) -> (r: VecPathBuilder<T, P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
//@struct hm HashMapPathBuilder
//@opt generics=<K, V, P: Path<Out = HashMap<K, V>>>
//@endfn
impl<K: 'static, V, P: Path<Out = HashMap<K, V>>> HashMapPathBuilder<K, V, P> {
//@fn hm HashMapPathBuilder::Deref::deref
//@opt ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
//@fn hm HashMapPathBuilder::key
//@opt sig=fn key(self, key: K) -> (r: Built<HashMapKeyMapper<K, V, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.path.parent == self.inner_path, r.path.key == key,
//@endfn
//@fn hm HashMapPathBuilder::key_shallow
//@opt sig=fn key_shallow(self, key: K) -> (r: LeafPathBuilder<HashMapKeyMapper<K, V, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.inner_path.parent == self.inner_path, r.inner_path.key == key,
//@endfn
}
//@fn hm HashMap::Trackable::new_path_builder
//@opt sig=fn hashmappathbuilder_new<K: 'static, V, P: Path<Out = HashMap<K, V>>>(parent: P) -> (r: HashMapPathBuilder<K, V, P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
#[verifier::reject_recursive_types(T)]
//@struct rc RcPathBuilder
//@opt generics=<T, P: Path<Out = Rc<T>>>
//@endfn
impl<T, P: Path<Out = Rc<T>>> RcPathBuilder<T, P> {
//@fn rc RcPathBuilder::Deref::deref
//@opt ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
//@fn rc RcPathBuilder::content
//@opt sig=fn content(self) -> (r: Built<RcMapper<T, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.path.parent == self.inner_path,
//@endfn
}
//@fn rc Rc::Trackable::new_path_builder
//@opt sig=fn rcpathbuilder_new<T, P: Path<Out = Rc<T>>>(parent: P) -> (r: RcPathBuilder<T, P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
#[verifier::reject_recursive_types(T)]
//@struct bo BoxPathBuilder
//@opt generics=<T, P: Path<Out = Box<T>>>
//@endfn
impl<T: 'static, P: Path<Out = Box<T>>> BoxPathBuilder<T, P> {
//@fn bo BoxPathBuilder::Deref::deref
//@opt ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
//@fn bo BoxPathBuilder::content
//@opt sig=fn content(self) -> (r: Built<TransparentDerefMapper<Box<T>, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.path.parent == self.inner_path,
//@endfn
//@fn bo BoxPathBuilder::content_shallow
//@opt sig=fn content_shallow(self) -> (r: LeafPathBuilder<TransparentDerefMapper<Box<T>, P>>);; path=T::new_path_builder->new_path_builder;; path=V::new_path_builder->new_path_builder
//@spec
    ensures r.inner_path.parent == self.inner_path,
//@endfn
}
//@fn bo Box::Trackable::new_path_builder
//@opt sig=fn boxpathbuilder_new<T: 'static, P: Path<Out = Box<T>>>(parent: P) -> (r: BoxPathBuilder<T, P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
impl<T, P: Path<Out = T>> TransparentDerefMapper<T, P> {
//@fn tr TransparentDerefMapper::new
//@opt lit=Self|p: std::marker::PhantomData
//@spec
    ensures r.parent == parent,
//@endfn
}
impl<'r, P: Path> ReferencePath<'r, P> {
//@fn pi ReferencePath::new
//@spec
    ensures r.0 == path,
//@endfn
}
// ======== copying a path ========
trait Clone: Sized {
    fn clone(&self) -> (r: Self)
        ensures r == *self;
}
impl<T, P: Path<Out = Vec<T>> + Clone> Clone for VecIndexMapper<T, P> {
//@fn ve VecIndexMapper::Clone::clone
//@endfn
}
impl<T, P: Path<Out = Vec<T>> + Clone> Clone for VecPathBuilder<T, P> {
//@fn ve VecPathBuilder::Clone::clone
//@endfn
}
impl<K: Clone + 'static, V, P: Path<Out = HashMap<K, V>> + Clone> Clone for HashMapKeyMapper<K, V, P> {
//@fn hm HashMapKeyMapper::Clone::clone
//@endfn
}
impl<K: Clone + 'static, V, P: Path<Out = HashMap<K, V>> + Clone> Clone for HashMapPathBuilder<K, V, P> {
//@fn hm HashMapPathBuilder::Clone::clone
//@endfn
}
impl<T, P: Path<Out = Rc<T>> + Clone> Clone for RcMapper<T, P> {
//@fn rc RcMapper::Clone::clone
//@endfn
}
impl<T, P: Path<Out = Box<T>> + Clone> Clone for BoxPathBuilder<T, P> {
//@fn bo BoxPathBuilder::Clone::clone
//@endfn
}
impl<T, P: Path<Out = T> + Clone> Clone for TransparentDerefMapper<T, P> {
//@fn tr TransparentDerefMapper::Clone::clone
//@opt lit=Self|p: std::marker::PhantomData
//@endfn
}
impl<'r, P: Path> Clone for ReferencePath<'r, P> {
//@fn pi ReferencePath::Clone::clone
//@endfn
}
impl<'s, S> Clone for RootPath<'s, S> {
//@fn st RootPath::Clone::clone
//@endfn
}
// ======== derived builders and copies ========
struct RecordBuilder<P> { inner_path: P }
impl<P> RecordBuilder<P> {
//@fn gen quote::deref
//@opt interp=inner_path_name->inner_path;; ret=&P
//@spec
    ensures *r == self.inner_path,
//@endfn
}
//@fn gen quote::new_path_builder
//@opt interp=parent_generic_param->P;; interp=prefix->crate;; interp=parent_value_name->parent;; interp=path_builder_name->RecordBuilder;; interp=inner_path_name->inner_path;; sig=fn record_new<P>(parent: P) -> (r: RecordBuilder<P>)
//@spec
    ensures r.inner_path == parent,
//@endfn
impl<A, B: 'static, P: Path<Out = Record<A, B>> + Clone> Clone for FieldMapper<A, B, P> {
//@fn gen quote::clone
//@opt pick=parent;; interp=parent_value_name->parent;; ufcs=Clone;; lit=Self|p: std::marker::PhantomData
//@endfn
}
impl<P: Clone> Clone for RecordBuilder<P> {
//@fn gen quote::clone
//@opt pick=inner_path;; interp=inner_path_name->inner_path;; interp=parent_value_name->parent;; ufcs=Clone
//@endfn
}
impl<P> RecordBuilder<P> {
//@fn gen quote::#field_name
//@opt interp=field_name->field;; interp=parent_value_name->parent;; interp=inner_path_name->inner_path;; interp=mapper_name->FieldMapper;; interp=trackable_trait->Trackable;; interp=field_type->A;; interp=parent_generic_param->P;; interp=type_params_unbracketed->;; interp=field_vis->;; path=Trackable::new_path_builder->new_path_builder;; lit=FieldMapper|p: std::marker::PhantomData;; sig=fn field<A, B>(self) -> (r: Built<FieldMapper<A, B, P>>) where P: Path<Out = Record<A, B>>
//@spec
    ensures r.path.parent == self.inner_path,
//@endfn
}
} // verus!
