// made by tools/mkderive.py: what #[derive(Trackable)] makes of the types in proof/derx/samples.rs
verus! {
struct N1 { a: u64 }
struct N1PathBuilder<P> { inner_path: P }
struct Mapper_N1_a<P: Path<Out = N1>> { parent: P }
impl<P: Path<Out = N1>> Path for Mapper_N1_a<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.a), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N1 { a: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N1 { a: x, ..v };
        let b = { let x = y; N1 { a: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N1_a::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N1_a::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N1PathBuilder<P> {
//@fn dx N1PathBuilder::a
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn a(self) -> (r: Built<Mapper_N1_a<P>>) where P: Path<Out = N1>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct N3 { a: u64, b: u64, c: u64 }
struct N3PathBuilder<P> { inner_path: P }
struct Mapper_N3_a<P: Path<Out = N3>> { parent: P }
impl<P: Path<Out = N3>> Path for Mapper_N3_a<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.a), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N3 { a: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N3 { a: x, ..v };
        let b = { let x = y; N3 { a: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N3_a::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N3_a::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N3PathBuilder<P> {
//@fn dx N3PathBuilder::a
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn a(self) -> (r: Built<Mapper_N3_a<P>>) where P: Path<Out = N3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_N3_b<P: Path<Out = N3>> { parent: P }
impl<P: Path<Out = N3>> Path for Mapper_N3_b<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.b), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N3 { b: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N3 { b: x, ..v };
        let b = { let x = y; N3 { b: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N3_b::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N3_b::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N3PathBuilder<P> {
//@fn dx N3PathBuilder::b
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn b(self) -> (r: Built<Mapper_N3_b<P>>) where P: Path<Out = N3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_N3_c<P: Path<Out = N3>> { parent: P }
impl<P: Path<Out = N3>> Path for Mapper_N3_c<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.c), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N3 { c: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N3 { c: x, ..v };
        let b = { let x = y; N3 { c: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N3_c::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N3_c::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N3PathBuilder<P> {
//@fn dx N3PathBuilder::c
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn c(self) -> (r: Built<Mapper_N3_c<P>>) where P: Path<Out = N3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct N5 { a: u64, b: u64, c: u64, d: u64, e: u64 }
struct N5PathBuilder<P> { inner_path: P }
struct Mapper_N5_b<P: Path<Out = N5>> { parent: P }
impl<P: Path<Out = N5>> Path for Mapper_N5_b<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.b), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N5 { b: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N5 { b: x, ..v };
        let b = { let x = y; N5 { b: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N5_b::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N5_b::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N5PathBuilder<P> {
//@fn dx N5PathBuilder::b
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn b(self) -> (r: Built<Mapper_N5_b<P>>) where P: Path<Out = N5>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_N5_d<P: Path<Out = N5>> { parent: P }
impl<P: Path<Out = N5>> Path for Mapper_N5_d<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.d), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); N5 { d: x, ..v } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = N5 { d: x, ..v };
        let b = { let x = y; N5 { d: x, ..v } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_N5_d::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_N5_d::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> N5PathBuilder<P> {
//@fn dx N5PathBuilder::d
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn d(self) -> (r: Built<Mapper_N5_d<P>>) where P: Path<Out = N5>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct T3 (u64, u64, u64);
struct T3PathBuilder<P> { inner_path: P }
struct Mapper_T3_t0<P: Path<Out = T3>> { parent: P }
impl<P: Path<Out = T3>> Path for Mapper_T3_t0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T3(x, v.1, v.2) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T3(x, v.1, v.2);
        let b = { let x = y; T3(x, v.1, v.2) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T3_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T3_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T3PathBuilder<P> {
//@fn dx T3PathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t0(self) -> (r: Built<Mapper_T3_t0<P>>) where P: Path<Out = T3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T3_t1<P: Path<Out = T3>> { parent: P }
impl<P: Path<Out = T3>> Path for Mapper_T3_t1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T3(v.0, x, v.2) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T3(v.0, x, v.2);
        let b = { let x = y; T3(v.0, x, v.2) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T3_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T3_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T3PathBuilder<P> {
//@fn dx T3PathBuilder::t1
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn t1(self) -> (r: Built<Mapper_T3_t1<P>>) where P: Path<Out = T3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T3_t2<P: Path<Out = T3>> { parent: P }
impl<P: Path<Out = T3>> Path for Mapper_T3_t2<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T3(v.0, v.1, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T3(v.0, v.1, x);
        let b = { let x = y; T3(v.0, v.1, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T3_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T3_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T3PathBuilder<P> {
//@fn dx T3PathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t2(self) -> (r: Built<Mapper_T3_t2<P>>) where P: Path<Out = T3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct T5 (u64, u64, u64, u64, u64);
struct T5PathBuilder<P> { inner_path: P }
struct Mapper_T5_t1<P: Path<Out = T5>> { parent: P }
impl<P: Path<Out = T5>> Path for Mapper_T5_t1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T5(v.0, x, v.2, v.3, v.4) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T5(v.0, x, v.2, v.3, v.4);
        let b = { let x = y; T5(v.0, x, v.2, v.3, v.4) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T5_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T5_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T5PathBuilder<P> {
//@fn dx T5PathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t1(self) -> (r: Built<Mapper_T5_t1<P>>) where P: Path<Out = T5>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T5_t3<P: Path<Out = T5>> { parent: P }
impl<P: Path<Out = T5>> Path for Mapper_T5_t3<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T5(v.0, v.1, v.2, x, v.4) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T5(v.0, v.1, v.2, x, v.4);
        let b = { let x = y; T5(v.0, v.1, v.2, x, v.4) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T5_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T5_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T5PathBuilder<P> {
//@fn dx T5PathBuilder::t3
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn t3(self) -> (r: Built<Mapper_T5_t3<P>>) where P: Path<Out = T5>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T5_t4<P: Path<Out = T5>> { parent: P }
impl<P: Path<Out = T5>> Path for Mapper_T5_t4<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T5(v.0, v.1, v.2, v.3, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T5(v.0, v.1, v.2, v.3, x);
        let b = { let x = y; T5(v.0, v.1, v.2, v.3, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T5_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T5_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T5PathBuilder<P> {
//@fn dx T5PathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t4(self) -> (r: Built<Mapper_T5_t4<P>>) where P: Path<Out = T5>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct T12 (u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
struct T12PathBuilder<P> { inner_path: P }
struct Mapper_T12_t0<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t0(self) -> (r: Built<Mapper_T12_t0<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t1<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t1(self) -> (r: Built<Mapper_T12_t1<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t2<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t2<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t2(self) -> (r: Built<Mapper_T12_t2<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t3<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t3<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t3(self) -> (r: Built<Mapper_T12_t3<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t4<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t4<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t4(self) -> (r: Built<Mapper_T12_t4<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t5<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t5<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t5(self) -> (r: Built<Mapper_T12_t5<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t6<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t6<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t6(self) -> (r: Built<Mapper_T12_t6<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t7<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t7<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t7(self) -> (r: Built<Mapper_T12_t7<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t8<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t8<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.8), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t8::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t8::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t8
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t8(self) -> (r: Built<Mapper_T12_t8<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t9<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t9<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.9), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t9::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t9::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t9
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t9(self) -> (r: Built<Mapper_T12_t9<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t10<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t10<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.10), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t10::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t10::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t10
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t10(self) -> (r: Built<Mapper_T12_t10<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_T12_t11<P: Path<Out = T12>> { parent: P }
impl<P: Path<Out = T12>> Path for Mapper_T12_t11<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => Some(v.11), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x);
        let b = { let x = y; T12(v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_T12_t11::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_T12_t11::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> T12PathBuilder<P> {
//@fn dx T12PathBuilder::t11
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn t11(self) -> (r: Built<Mapper_T12_t11<P>>) where P: Path<Out = T12>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
enum E4 { A, B(u64, u64, u64), C{ x: u64, y: u64 }, F(u64) }
struct E4PathBuilder<P> { inner_path: P }
struct Mapper_E4_B_0<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_B_0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::B(q, _, _) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is B } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::B(x, v->B_1, v->B_2) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::B(x, v->B_1, v->B_2);
        let b = { let x = y; E4::B(x, v->B_1, v->B_2) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_B_0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_B_0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::B_0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn B_0(self) -> (r: Built<Mapper_E4_B_0<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E4_B_1<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_B_1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::B(_, q, _) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is B } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::B(v->B_0, x, v->B_2) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::B(v->B_0, x, v->B_2);
        let b = { let x = y; E4::B(v->B_0, x, v->B_2) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_B_1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_B_1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::B_1
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn B_1(self) -> (r: Built<Mapper_E4_B_1<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E4_B_2<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_B_2<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::B(_, _, q) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is B } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::B(v->B_0, v->B_1, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::B(v->B_0, v->B_1, x);
        let b = { let x = y; E4::B(v->B_0, v->B_1, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_B_2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_B_2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::B_2
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn B_2(self) -> (r: Built<Mapper_E4_B_2<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E4_C_x<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_C_x<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::C { x: q, .. } => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is C } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::C { x: x, y: v->y } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::C { x: x, y: v->y };
        let b = { let x = y; E4::C { x: x, y: v->y } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_C_x::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_C_x::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::C_x
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn C_x(self) -> (r: Built<Mapper_E4_C_x<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E4_C_y<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_C_y<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::C { y: q, .. } => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is C } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::C { x: v->x, y: x } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::C { x: v->x, y: x };
        let b = { let x = y; E4::C { x: v->x, y: x } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_C_y::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_C_y::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::C_y
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn C_y(self) -> (r: Built<Mapper_E4_C_y<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E4_F_0<P: Path<Out = E4>> { parent: P }
impl<P: Path<Out = E4>> Path for Mapper_E4_F_0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E4::F(q) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is F } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E4::F(x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E4::F(x);
        let b = { let x = y; E4::F(x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E4_F_0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E4_F_0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E4PathBuilder<P> {
//@fn dx E4PathBuilder::F_0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn F_0(self) -> (r: Built<Mapper_E4_F_0<P>>) where P: Path<Out = E4>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
enum E3 { B(u64, u64, u64, u64), C{ x: u64, y: u64, z: u64, u: u64 }, F(u64, u64) }
struct E3PathBuilder<P> { inner_path: P }
struct Mapper_E3_B_1<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_B_1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::B(_, q, _, _) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is B } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::B(v->B_0, x, v->B_2, v->B_3) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::B(v->B_0, x, v->B_2, v->B_3);
        let b = { let x = y; E3::B(v->B_0, x, v->B_2, v->B_3) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_B_1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_B_1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::B_1
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn B_1(self) -> (r: Built<Mapper_E3_B_1<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E3_B_3<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_B_3<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::B(_, _, _, q) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is B } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::B(v->B_0, v->B_1, v->B_2, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::B(v->B_0, v->B_1, v->B_2, x);
        let b = { let x = y; E3::B(v->B_0, v->B_1, v->B_2, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_B_3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_B_3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::B_3
//@opt path=TrackableLeaf::new_path_builder->new_path_builder;; sig=fn B_3(self) -> (r: Built<Mapper_E3_B_3<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E3_C_y<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_C_y<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::C { y: q, .. } => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is C } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::C { x: v->x, y: x, z: v->z, u: v->u } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::C { x: v->x, y: x, z: v->z, u: v->u };
        let b = { let x = y; E3::C { x: v->x, y: x, z: v->z, u: v->u } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_C_y::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_C_y::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::C_y
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn C_y(self) -> (r: Built<Mapper_E3_C_y<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E3_C_u<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_C_u<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::C { u: q, .. } => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is C } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::C { x: v->x, y: v->y, z: v->z, u: x } }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::C { x: v->x, y: v->y, z: v->z, u: x };
        let b = { let x = y; E3::C { x: v->x, y: v->y, z: v->z, u: x } };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_C_u::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_C_u::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::C_u
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn C_u(self) -> (r: Built<Mapper_E3_C_u<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E3_F_0<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_F_0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::F(q, _) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is F } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::F(x, v->F_1) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::F(x, v->F_1);
        let b = { let x = y; E3::F(x, v->F_1) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_F_0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_F_0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::F_0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn F_0(self) -> (r: Built<Mapper_E3_F_0<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E3_F_1<P: Path<Out = E3>> { parent: P }
impl<P: Path<Out = E3>> Path for Mapper_E3_F_1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E3::F(_, q) => Some(q), _ => None }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); v is F } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E3::F(v->F_0, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E3::F(v->F_0, x);
        let b = { let x = y; E3::F(v->F_0, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E3_F_1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E3_F_1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E3PathBuilder<P> {
//@fn dx E3PathBuilder::F_1
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn F_1(self) -> (r: Built<Mapper_E3_F_1<P>>) where P: Path<Out = E3>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
enum E1 { B(u64, u64) }
struct E1PathBuilder<P> { inner_path: P }
struct Mapper_E1_B_0<P: Path<Out = E1>> { parent: P }
impl<P: Path<Out = E1>> Path for Mapper_E1_B_0<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E1::B(q, _) => Some(q) }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E1::B(x, v->B_1) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E1::B(x, v->B_1);
        let b = { let x = y; E1::B(x, v->B_1) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E1_B_0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E1_B_0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E1PathBuilder<P> {
//@fn dx E1PathBuilder::B_0
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn B_0(self) -> (r: Built<Mapper_E1_B_0<P>>) where P: Path<Out = E1>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Mapper_E1_B_1<P: Path<Out = E1>> { parent: P }
impl<P: Path<Out = E1>> Path for Mapper_E1_B_1<P> {
    type Base = P::Base;
    type Out = u64;
    spec fn at(&self, s: P::Base) -> Option<u64> { match self.parent.at(s) { Some(v) => match v { E1::B(_, q) => Some(q) }, None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) && { let v = self.parent.at(s).unwrap(); true } }
    spec fn put(&self, s: P::Base, x: u64) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); E1::B(v->B_0, x) }) }
    proof fn laws(&self, s: P::Base, x: u64, y: u64) {
        let v = self.parent.at(s).unwrap();
        let a = E1::B(v->B_0, x);
        let b = { let x = y; E1::B(v->B_0, x) };
        self.parent.laws(s, a, b);
    }
//@fn dx Mapper_E1_B_1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b u64>)
//@endfn
//@fn dx Mapper_E1_B_1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut u64>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> E1PathBuilder<P> {
//@fn dx E1PathBuilder::B_1
//@opt path=Trackable::new_path_builder->new_path_builder;; sig=fn B_1(self) -> (r: Built<Mapper_E1_B_1<P>>) where P: Path<Out = E1>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
// the tuples of the standard library
struct Tuple1PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
struct Mapper_1_Tuple_t0<T0, P: Path<Out = (T0,)>> { parent: P, p: std::marker::PhantomData<(T0,)> }
impl<T0: 'static, P: Path<Out = (T0,)>> Path for Mapper_1_Tuple_t0<T0, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x,), { let x = y; (x,) });
    }
//@fn du1 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du1 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple1PathBuilder<P> {
//@fn du1 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_1_Tuple_t0;; lit=Mapper_1_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0>(self) -> (r: Built<Mapper_1_Tuple_t0<T0, P>>) where P: Path<Out = (T0,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple2PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
struct Mapper_2_Tuple_t0<T0, T1, P: Path<Out = (T0, T1,)>> { parent: P, p: std::marker::PhantomData<(T0, T1,)> }
impl<T0: 'static, T1: 'static, P: Path<Out = (T0, T1,)>> Path for Mapper_2_Tuple_t0<T0, T1, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1,), { let x = y; (x, v.1,) });
    }
//@fn du2 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du2 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple2PathBuilder<P> {
//@fn du2 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_2_Tuple_t0;; lit=Mapper_2_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1>(self) -> (r: Built<Mapper_2_Tuple_t0<T0, T1, P>>) where P: Path<Out = (T0, T1,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
struct Mapper_2_Tuple_t1<T0, T1, P: Path<Out = (T0, T1,)>> { parent: P, p: std::marker::PhantomData<(T0, T1,)> }
impl<T0: 'static, T1: 'static, P: Path<Out = (T0, T1,)>> Path for Mapper_2_Tuple_t1<T0, T1, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x,), { let x = y; (v.0, x,) });
    }
//@fn du2 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du2 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple2PathBuilder<P> {
//@fn du2 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_2_Tuple_t1;; lit=Mapper_2_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1>(self) -> (r: Built<Mapper_2_Tuple_t1<T0, T1, P>>) where P: Path<Out = (T0, T1,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple3PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
struct Mapper_3_Tuple_t0<T0, T1, T2, P: Path<Out = (T0, T1, T2,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2,)> }
impl<T0: 'static, T1: 'static, T2: 'static, P: Path<Out = (T0, T1, T2,)>> Path for Mapper_3_Tuple_t0<T0, T1, T2, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2,), { let x = y; (x, v.1, v.2,) });
    }
//@fn du3 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du3 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple3PathBuilder<P> {
//@fn du3 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_3_Tuple_t0;; lit=Mapper_3_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2>(self) -> (r: Built<Mapper_3_Tuple_t0<T0, T1, T2, P>>) where P: Path<Out = (T0, T1, T2,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
struct Mapper_3_Tuple_t1<T0, T1, T2, P: Path<Out = (T0, T1, T2,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2,)> }
impl<T0: 'static, T1: 'static, T2: 'static, P: Path<Out = (T0, T1, T2,)>> Path for Mapper_3_Tuple_t1<T0, T1, T2, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2,), { let x = y; (v.0, x, v.2,) });
    }
//@fn du3 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du3 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple3PathBuilder<P> {
//@fn du3 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_3_Tuple_t1;; lit=Mapper_3_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2>(self) -> (r: Built<Mapper_3_Tuple_t1<T0, T1, T2, P>>) where P: Path<Out = (T0, T1, T2,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
struct Mapper_3_Tuple_t2<T0, T1, T2, P: Path<Out = (T0, T1, T2,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2,)> }
impl<T0: 'static, T1: 'static, T2: 'static, P: Path<Out = (T0, T1, T2,)>> Path for Mapper_3_Tuple_t2<T0, T1, T2, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x,), { let x = y; (v.0, v.1, x,) });
    }
//@fn du3 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du3 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple3PathBuilder<P> {
//@fn du3 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_3_Tuple_t2;; lit=Mapper_3_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2>(self) -> (r: Built<Mapper_3_Tuple_t2<T0, T1, T2, P>>) where P: Path<Out = (T0, T1, T2,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple4PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
struct Mapper_4_Tuple_t0<T0, T1, T2, T3, P: Path<Out = (T0, T1, T2, T3,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, P: Path<Out = (T0, T1, T2, T3,)>> Path for Mapper_4_Tuple_t0<T0, T1, T2, T3, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3,), { let x = y; (x, v.1, v.2, v.3,) });
    }
//@fn du4 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du4 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple4PathBuilder<P> {
//@fn du4 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_4_Tuple_t0;; lit=Mapper_4_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3>(self) -> (r: Built<Mapper_4_Tuple_t0<T0, T1, T2, T3, P>>) where P: Path<Out = (T0, T1, T2, T3,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
struct Mapper_4_Tuple_t1<T0, T1, T2, T3, P: Path<Out = (T0, T1, T2, T3,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, P: Path<Out = (T0, T1, T2, T3,)>> Path for Mapper_4_Tuple_t1<T0, T1, T2, T3, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3,), { let x = y; (v.0, x, v.2, v.3,) });
    }
//@fn du4 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du4 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple4PathBuilder<P> {
//@fn du4 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_4_Tuple_t1;; lit=Mapper_4_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3>(self) -> (r: Built<Mapper_4_Tuple_t1<T0, T1, T2, T3, P>>) where P: Path<Out = (T0, T1, T2, T3,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
struct Mapper_4_Tuple_t2<T0, T1, T2, T3, P: Path<Out = (T0, T1, T2, T3,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, P: Path<Out = (T0, T1, T2, T3,)>> Path for Mapper_4_Tuple_t2<T0, T1, T2, T3, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3,), { let x = y; (v.0, v.1, x, v.3,) });
    }
//@fn du4 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du4 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple4PathBuilder<P> {
//@fn du4 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_4_Tuple_t2;; lit=Mapper_4_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3>(self) -> (r: Built<Mapper_4_Tuple_t2<T0, T1, T2, T3, P>>) where P: Path<Out = (T0, T1, T2, T3,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
struct Mapper_4_Tuple_t3<T0, T1, T2, T3, P: Path<Out = (T0, T1, T2, T3,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, P: Path<Out = (T0, T1, T2, T3,)>> Path for Mapper_4_Tuple_t3<T0, T1, T2, T3, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x,), { let x = y; (v.0, v.1, v.2, x,) });
    }
//@fn du4 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du4 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple4PathBuilder<P> {
//@fn du4 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_4_Tuple_t3;; lit=Mapper_4_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3>(self) -> (r: Built<Mapper_4_Tuple_t3<T0, T1, T2, T3, P>>) where P: Path<Out = (T0, T1, T2, T3,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple5PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
struct Mapper_5_Tuple_t0<T0, T1, T2, T3, T4, P: Path<Out = (T0, T1, T2, T3, T4,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, P: Path<Out = (T0, T1, T2, T3, T4,)>> Path for Mapper_5_Tuple_t0<T0, T1, T2, T3, T4, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4,), { let x = y; (x, v.1, v.2, v.3, v.4,) });
    }
//@fn du5 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du5 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple5PathBuilder<P> {
//@fn du5 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_5_Tuple_t0;; lit=Mapper_5_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4>(self) -> (r: Built<Mapper_5_Tuple_t0<T0, T1, T2, T3, T4, P>>) where P: Path<Out = (T0, T1, T2, T3, T4,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
struct Mapper_5_Tuple_t1<T0, T1, T2, T3, T4, P: Path<Out = (T0, T1, T2, T3, T4,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, P: Path<Out = (T0, T1, T2, T3, T4,)>> Path for Mapper_5_Tuple_t1<T0, T1, T2, T3, T4, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4,), { let x = y; (v.0, x, v.2, v.3, v.4,) });
    }
//@fn du5 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du5 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple5PathBuilder<P> {
//@fn du5 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_5_Tuple_t1;; lit=Mapper_5_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4>(self) -> (r: Built<Mapper_5_Tuple_t1<T0, T1, T2, T3, T4, P>>) where P: Path<Out = (T0, T1, T2, T3, T4,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
struct Mapper_5_Tuple_t2<T0, T1, T2, T3, T4, P: Path<Out = (T0, T1, T2, T3, T4,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, P: Path<Out = (T0, T1, T2, T3, T4,)>> Path for Mapper_5_Tuple_t2<T0, T1, T2, T3, T4, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4,), { let x = y; (v.0, v.1, x, v.3, v.4,) });
    }
//@fn du5 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du5 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple5PathBuilder<P> {
//@fn du5 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_5_Tuple_t2;; lit=Mapper_5_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4>(self) -> (r: Built<Mapper_5_Tuple_t2<T0, T1, T2, T3, T4, P>>) where P: Path<Out = (T0, T1, T2, T3, T4,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
struct Mapper_5_Tuple_t3<T0, T1, T2, T3, T4, P: Path<Out = (T0, T1, T2, T3, T4,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, P: Path<Out = (T0, T1, T2, T3, T4,)>> Path for Mapper_5_Tuple_t3<T0, T1, T2, T3, T4, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4,), { let x = y; (v.0, v.1, v.2, x, v.4,) });
    }
//@fn du5 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du5 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple5PathBuilder<P> {
//@fn du5 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_5_Tuple_t3;; lit=Mapper_5_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4>(self) -> (r: Built<Mapper_5_Tuple_t3<T0, T1, T2, T3, T4, P>>) where P: Path<Out = (T0, T1, T2, T3, T4,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
struct Mapper_5_Tuple_t4<T0, T1, T2, T3, T4, P: Path<Out = (T0, T1, T2, T3, T4,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, P: Path<Out = (T0, T1, T2, T3, T4,)>> Path for Mapper_5_Tuple_t4<T0, T1, T2, T3, T4, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x,), { let x = y; (v.0, v.1, v.2, v.3, x,) });
    }
//@fn du5 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du5 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple5PathBuilder<P> {
//@fn du5 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_5_Tuple_t4;; lit=Mapper_5_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4>(self) -> (r: Built<Mapper_5_Tuple_t4<T0, T1, T2, T3, T4, P>>) where P: Path<Out = (T0, T1, T2, T3, T4,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple6PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t0<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t0<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5,) });
    }
//@fn du6 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du6 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_6_Tuple_t0;; lit=Mapper_6_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t0<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t1<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t1<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5,) });
    }
//@fn du6 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du6 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_6_Tuple_t1;; lit=Mapper_6_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t1<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t2<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t2<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5,) });
    }
//@fn du6 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du6 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_6_Tuple_t2;; lit=Mapper_6_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t2<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t3<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t3<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5,) });
    }
//@fn du6 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du6 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_6_Tuple_t3;; lit=Mapper_6_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t3<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t4<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t4<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5,) });
    }
//@fn du6 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du6 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_6_Tuple_t4;; lit=Mapper_6_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t4<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
struct Mapper_6_Tuple_t5<T0, T1, T2, T3, T4, T5, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5,)>> Path for Mapper_6_Tuple_t5<T0, T1, T2, T3, T4, T5, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x,) });
    }
//@fn du6 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du6 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple6PathBuilder<P> {
//@fn du6 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_6_Tuple_t5;; lit=Mapper_6_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5>(self) -> (r: Built<Mapper_6_Tuple_t5<T0, T1, T2, T3, T4, T5, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple7PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6,) });
    }
//@fn du7 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du7 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_7_Tuple_t0;; lit=Mapper_7_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6,) });
    }
//@fn du7 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du7 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_7_Tuple_t1;; lit=Mapper_7_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6,) });
    }
//@fn du7 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du7 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_7_Tuple_t2;; lit=Mapper_7_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6,) });
    }
//@fn du7 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du7 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_7_Tuple_t3;; lit=Mapper_7_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6,) });
    }
//@fn du7 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du7 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_7_Tuple_t4;; lit=Mapper_7_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6,) });
    }
//@fn du7 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du7 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_7_Tuple_t5;; lit=Mapper_7_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
struct Mapper_7_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>> Path for Mapper_7_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x,) });
    }
//@fn du7 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du7 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple7PathBuilder<P> {
//@fn du7 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_7_Tuple_t6;; lit=Mapper_7_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6>(self) -> (r: Built<Mapper_7_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple8PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du8 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_8_Tuple_t0;; lit=Mapper_8_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du8 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_8_Tuple_t1;; lit=Mapper_8_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du8 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_8_Tuple_t2;; lit=Mapper_8_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du8 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_8_Tuple_t3;; lit=Mapper_8_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du8 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_8_Tuple_t4;; lit=Mapper_8_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7,) });
    }
//@fn du8 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du8 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_8_Tuple_t5;; lit=Mapper_8_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7,) });
    }
//@fn du8 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du8 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_8_Tuple_t6;; lit=Mapper_8_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
struct Mapper_8_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>> Path for Mapper_8_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, P> {
    type Base = P::Base;
    type Out = T7;
    spec fn at(&self, s: P::Base) -> Option<T7> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T7) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x,) }) }
    proof fn laws(&self, s: P::Base, x: T7, y: T7) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x,) });
    }
//@fn du8 Mapper_Tuple_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T7>)
//@endfn
//@fn du8 Mapper_Tuple_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T7>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple8PathBuilder<P> {
//@fn du8 ImitatorPathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t7->Mapper_8_Tuple_t7;; lit=Mapper_8_Tuple_t7|p: std::marker::PhantomData;; sig=fn t7<T0, T1, T2, T3, T4, T5, T6, T7>(self) -> (r: Built<Mapper_8_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple9PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du9 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_9_Tuple_t0;; lit=Mapper_9_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du9 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_9_Tuple_t1;; lit=Mapper_9_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du9 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_9_Tuple_t2;; lit=Mapper_9_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du9 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_9_Tuple_t3;; lit=Mapper_9_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du9 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_9_Tuple_t4;; lit=Mapper_9_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du9 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_9_Tuple_t5;; lit=Mapper_9_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8,) });
    }
//@fn du9 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du9 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_9_Tuple_t6;; lit=Mapper_9_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T7;
    spec fn at(&self, s: P::Base) -> Option<T7> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T7) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8,) }) }
    proof fn laws(&self, s: P::Base, x: T7, y: T7) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8,) });
    }
//@fn du9 Mapper_Tuple_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T7>)
//@endfn
//@fn du9 Mapper_Tuple_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T7>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t7->Mapper_9_Tuple_t7;; lit=Mapper_9_Tuple_t7|p: std::marker::PhantomData;; sig=fn t7<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
struct Mapper_9_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>> Path for Mapper_9_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, P> {
    type Base = P::Base;
    type Out = T8;
    spec fn at(&self, s: P::Base) -> Option<T8> { match self.parent.at(s) { Some(v) => Some(v.8), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T8) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x,) }) }
    proof fn laws(&self, s: P::Base, x: T8, y: T8) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x,) });
    }
//@fn du9 Mapper_Tuple_t8::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T8>)
//@endfn
//@fn du9 Mapper_Tuple_t8::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T8>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple9PathBuilder<P> {
//@fn du9 ImitatorPathBuilder::t8
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t8->Mapper_9_Tuple_t8;; lit=Mapper_9_Tuple_t8|p: std::marker::PhantomData;; sig=fn t8<T0, T1, T2, T3, T4, T5, T6, T7, T8>(self) -> (r: Built<Mapper_9_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple10PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du10 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_10_Tuple_t0;; lit=Mapper_10_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du10 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_10_Tuple_t1;; lit=Mapper_10_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du10 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_10_Tuple_t2;; lit=Mapper_10_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du10 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_10_Tuple_t3;; lit=Mapper_10_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du10 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_10_Tuple_t4;; lit=Mapper_10_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du10 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_10_Tuple_t5;; lit=Mapper_10_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du10 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_10_Tuple_t6;; lit=Mapper_10_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T7;
    spec fn at(&self, s: P::Base) -> Option<T7> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T7) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T7, y: T7) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9,) });
    }
//@fn du10 Mapper_Tuple_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T7>)
//@endfn
//@fn du10 Mapper_Tuple_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T7>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t7->Mapper_10_Tuple_t7;; lit=Mapper_10_Tuple_t7|p: std::marker::PhantomData;; sig=fn t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T8;
    spec fn at(&self, s: P::Base) -> Option<T8> { match self.parent.at(s) { Some(v) => Some(v.8), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T8) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9,) }) }
    proof fn laws(&self, s: P::Base, x: T8, y: T8) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9,) });
    }
//@fn du10 Mapper_Tuple_t8::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T8>)
//@endfn
//@fn du10 Mapper_Tuple_t8::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T8>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t8
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t8->Mapper_10_Tuple_t8;; lit=Mapper_10_Tuple_t8|p: std::marker::PhantomData;; sig=fn t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
struct Mapper_10_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>> Path for Mapper_10_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P> {
    type Base = P::Base;
    type Out = T9;
    spec fn at(&self, s: P::Base) -> Option<T9> { match self.parent.at(s) { Some(v) => Some(v.9), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T9) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x,) }) }
    proof fn laws(&self, s: P::Base, x: T9, y: T9) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x,) });
    }
//@fn du10 Mapper_Tuple_t9::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T9>)
//@endfn
//@fn du10 Mapper_Tuple_t9::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T9>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple10PathBuilder<P> {
//@fn du10 ImitatorPathBuilder::t9
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t9->Mapper_10_Tuple_t9;; lit=Mapper_10_Tuple_t9|p: std::marker::PhantomData;; sig=fn t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9>(self) -> (r: Built<Mapper_10_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple11PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du11 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_11_Tuple_t0;; lit=Mapper_11_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du11 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_11_Tuple_t1;; lit=Mapper_11_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du11 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_11_Tuple_t2;; lit=Mapper_11_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du11 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_11_Tuple_t3;; lit=Mapper_11_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du11 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_11_Tuple_t4;; lit=Mapper_11_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du11 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_11_Tuple_t5;; lit=Mapper_11_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du11 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_11_Tuple_t6;; lit=Mapper_11_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T7;
    spec fn at(&self, s: P::Base) -> Option<T7> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T7) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T7, y: T7) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T7>)
//@endfn
//@fn du11 Mapper_Tuple_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T7>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t7->Mapper_11_Tuple_t7;; lit=Mapper_11_Tuple_t7|p: std::marker::PhantomData;; sig=fn t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T8;
    spec fn at(&self, s: P::Base) -> Option<T8> { match self.parent.at(s) { Some(v) => Some(v.8), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T8) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T8, y: T8) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10,) });
    }
//@fn du11 Mapper_Tuple_t8::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T8>)
//@endfn
//@fn du11 Mapper_Tuple_t8::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T8>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t8
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t8->Mapper_11_Tuple_t8;; lit=Mapper_11_Tuple_t8|p: std::marker::PhantomData;; sig=fn t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T9;
    spec fn at(&self, s: P::Base) -> Option<T9> { match self.parent.at(s) { Some(v) => Some(v.9), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T9) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10,) }) }
    proof fn laws(&self, s: P::Base, x: T9, y: T9) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10,) });
    }
//@fn du11 Mapper_Tuple_t9::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T9>)
//@endfn
//@fn du11 Mapper_Tuple_t9::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T9>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t9
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t9->Mapper_11_Tuple_t9;; lit=Mapper_11_Tuple_t9|p: std::marker::PhantomData;; sig=fn t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
struct Mapper_11_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>> Path for Mapper_11_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P> {
    type Base = P::Base;
    type Out = T10;
    spec fn at(&self, s: P::Base) -> Option<T10> { match self.parent.at(s) { Some(v) => Some(v.10), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T10) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x,) }) }
    proof fn laws(&self, s: P::Base, x: T10, y: T10) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x,) });
    }
//@fn du11 Mapper_Tuple_t10::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T10>)
//@endfn
//@fn du11 Mapper_Tuple_t10::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T10>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple11PathBuilder<P> {
//@fn du11 ImitatorPathBuilder::t10
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t10->Mapper_11_Tuple_t10;; lit=Mapper_11_Tuple_t10|p: std::marker::PhantomData;; sig=fn t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10>(self) -> (r: Built<Mapper_11_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
struct Tuple12PathBuilder<P> { inner_path: P }
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T0;
    spec fn at(&self, s: P::Base) -> Option<T0> { match self.parent.at(s) { Some(v) => Some(v.0), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T0) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T0, y: T0) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (x, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t0::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T0>)
//@endfn
//@fn du12 Mapper_Tuple_t0::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T0>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t0
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t0->Mapper_12_Tuple_t0;; lit=Mapper_12_Tuple_t0|p: std::marker::PhantomData;; sig=fn t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t0<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T1;
    spec fn at(&self, s: P::Base) -> Option<T1> { match self.parent.at(s) { Some(v) => Some(v.1), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T1) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T1, y: T1) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, x, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t1::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T1>)
//@endfn
//@fn du12 Mapper_Tuple_t1::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T1>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t1
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t1->Mapper_12_Tuple_t1;; lit=Mapper_12_Tuple_t1|p: std::marker::PhantomData;; sig=fn t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t1<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T2;
    spec fn at(&self, s: P::Base) -> Option<T2> { match self.parent.at(s) { Some(v) => Some(v.2), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T2) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T2, y: T2) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, x, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t2::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T2>)
//@endfn
//@fn du12 Mapper_Tuple_t2::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T2>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t2
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t2->Mapper_12_Tuple_t2;; lit=Mapper_12_Tuple_t2|p: std::marker::PhantomData;; sig=fn t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t2<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T3;
    spec fn at(&self, s: P::Base) -> Option<T3> { match self.parent.at(s) { Some(v) => Some(v.3), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T3) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T3, y: T3) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, x, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t3::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T3>)
//@endfn
//@fn du12 Mapper_Tuple_t3::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T3>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t3
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t3->Mapper_12_Tuple_t3;; lit=Mapper_12_Tuple_t3|p: std::marker::PhantomData;; sig=fn t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t3<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T4;
    spec fn at(&self, s: P::Base) -> Option<T4> { match self.parent.at(s) { Some(v) => Some(v.4), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T4) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T4, y: T4) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, x, v.5, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t4::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T4>)
//@endfn
//@fn du12 Mapper_Tuple_t4::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T4>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t4
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t4->Mapper_12_Tuple_t4;; lit=Mapper_12_Tuple_t4|p: std::marker::PhantomData;; sig=fn t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t4<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T5;
    spec fn at(&self, s: P::Base) -> Option<T5> { match self.parent.at(s) { Some(v) => Some(v.5), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T5) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T5, y: T5) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, x, v.6, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t5::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T5>)
//@endfn
//@fn du12 Mapper_Tuple_t5::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T5>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t5
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t5->Mapper_12_Tuple_t5;; lit=Mapper_12_Tuple_t5|p: std::marker::PhantomData;; sig=fn t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t5<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T6;
    spec fn at(&self, s: P::Base) -> Option<T6> { match self.parent.at(s) { Some(v) => Some(v.6), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T6) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T6, y: T6) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, x, v.7, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t6::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T6>)
//@endfn
//@fn du12 Mapper_Tuple_t6::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T6>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t6
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t6->Mapper_12_Tuple_t6;; lit=Mapper_12_Tuple_t6|p: std::marker::PhantomData;; sig=fn t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t6<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T7;
    spec fn at(&self, s: P::Base) -> Option<T7> { match self.parent.at(s) { Some(v) => Some(v.7), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T7) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T7, y: T7) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, x, v.8, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t7::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T7>)
//@endfn
//@fn du12 Mapper_Tuple_t7::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T7>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t7
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t7->Mapper_12_Tuple_t7;; lit=Mapper_12_Tuple_t7|p: std::marker::PhantomData;; sig=fn t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t7<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T8;
    spec fn at(&self, s: P::Base) -> Option<T8> { match self.parent.at(s) { Some(v) => Some(v.8), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T8) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T8, y: T8) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, x, v.9, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t8::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T8>)
//@endfn
//@fn du12 Mapper_Tuple_t8::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T8>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t8
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t8->Mapper_12_Tuple_t8;; lit=Mapper_12_Tuple_t8|p: std::marker::PhantomData;; sig=fn t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t8<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T9;
    spec fn at(&self, s: P::Base) -> Option<T9> { match self.parent.at(s) { Some(v) => Some(v.9), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T9) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T9, y: T9) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, x, v.10, v.11,) });
    }
//@fn du12 Mapper_Tuple_t9::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T9>)
//@endfn
//@fn du12 Mapper_Tuple_t9::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T9>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t9
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t9->Mapper_12_Tuple_t9;; lit=Mapper_12_Tuple_t9|p: std::marker::PhantomData;; sig=fn t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t9<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T10;
    spec fn at(&self, s: P::Base) -> Option<T10> { match self.parent.at(s) { Some(v) => Some(v.10), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T10) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11,) }) }
    proof fn laws(&self, s: P::Base, x: T10, y: T10) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, x, v.11,) });
    }
//@fn du12 Mapper_Tuple_t10::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T10>)
//@endfn
//@fn du12 Mapper_Tuple_t10::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T10>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t10
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t10->Mapper_12_Tuple_t10;; lit=Mapper_12_Tuple_t10|p: std::marker::PhantomData;; sig=fn t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t10<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
#[verifier::reject_recursive_types(T0)]
#[verifier::reject_recursive_types(T1)]
#[verifier::reject_recursive_types(T2)]
#[verifier::reject_recursive_types(T3)]
#[verifier::reject_recursive_types(T4)]
#[verifier::reject_recursive_types(T5)]
#[verifier::reject_recursive_types(T6)]
#[verifier::reject_recursive_types(T7)]
#[verifier::reject_recursive_types(T8)]
#[verifier::reject_recursive_types(T9)]
#[verifier::reject_recursive_types(T10)]
#[verifier::reject_recursive_types(T11)]
struct Mapper_12_Tuple_t11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> { parent: P, p: std::marker::PhantomData<(T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)> }
impl<T0: 'static, T1: 'static, T2: 'static, T3: 'static, T4: 'static, T5: 'static, T6: 'static, T7: 'static, T8: 'static, T9: 'static, T10: 'static, T11: 'static, P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>> Path for Mapper_12_Tuple_t11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P> {
    type Base = P::Base;
    type Out = T11;
    spec fn at(&self, s: P::Base) -> Option<T11> { match self.parent.at(s) { Some(v) => Some(v.11), None => None } }
    spec fn open(&self, s: P::Base) -> bool { self.parent.open(s) }
    spec fn put(&self, s: P::Base, x: T11) -> P::Base { self.parent.put(s, { let v = self.parent.at(s).unwrap(); (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x,) }) }
    proof fn laws(&self, s: P::Base, x: T11, y: T11) {
        let v = self.parent.at(s).unwrap();
        self.parent.laws(s, (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x,), { let x = y; (v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, x,) });
    }
//@fn du12 Mapper_Tuple_t11::Path::path_borrow
//@opt ufcs=Path;; sig=fn path_borrow<'b>(&self, root: &'b P::Base) -> (r: Option<&'b T11>)
//@endfn
//@fn du12 Mapper_Tuple_t11::Path::path_borrow_mut
//@opt ufcs=Path;; sig=fn path_borrow_mut<'b>(&self, root: &'b mut P::Base) -> (r: Option<&'b mut T11>)
//@begin
    proof { self.parent.laws(*root, arbitrary(), arbitrary()); }
//@endfn
}
impl<P> Tuple12PathBuilder<P> {
//@fn du12 ImitatorPathBuilder::t11
//@opt path=Trackable::new_path_builder->new_path_builder;; path=Mapper_Tuple_t11->Mapper_12_Tuple_t11;; lit=Mapper_12_Tuple_t11|p: std::marker::PhantomData;; sig=fn t11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11>(self) -> (r: Built<Mapper_12_Tuple_t11<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, P>>) where P: Path<Out = (T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11,)>
//@spec
    ensures r.path.parent == self.inner_path, // [X01,X02,X03]
//@endfn
}
} // verus!
