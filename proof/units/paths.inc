//@file store x-bow/src/store.rs
//@file vec x-bow/src/impls/stdlib/vec.rs
//@file hm x-bow/src/impls/stdlib/hash_map.rs
//@file rc x-bow/src/impls/stdlib/rc.rs
//@file tr x-bow/src/impls/transparent.rs
//@file pi x-bow/src/path_impl.rs
//@file gen x-bow-macros/src/generate.rs
//@default cell;; pin;; world=visit_hashes,finish_one;; via=write_u8,write_usize:deref_mut;; expr=&mut **visitor->visitor.deref_mut()
//@include paths_base.inc
verus! {
//@struct store RootPath
//@opt dropfield=store;; generics=
//@endfn
impl Path for RootPath {
    spec fn segs(&self) -> Seq<Seq<int>> { seq![Seq::<int>::empty()] }
//@fn store RootPath::Path::visit_hashes
//@endfn
}
//@struct vec VecIndexMapper
//@opt generics=<P: Path>
//@endfn
impl<P: Path> Path for VecIndexMapper<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(self.index)) }
//@fn vec VecIndexMapper::Path::visit_hashes
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent.visit_hashes
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(self.index), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
//@struct hm HashMapKeyMapper
//@opt generics=<K: Hash, P: Path>
//@endfn
impl<K: Hash, P: Path> Path for HashMapKeyMapper<K, P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(self.key.toks()) }
//@fn hm HashMapKeyMapper::Path::visit_hashes
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent.visit_hashes
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, self.key.toks(), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
//@struct rc RcMapper
//@opt generics=<P: Path>
//@endfn
impl<P: Path> Path for RcMapper<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_u8(0)) }
//@fn rc RcMapper::Path::visit_hashes
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent.visit_hashes
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_u8(0), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
//@struct tr TransparentDerefMapper
//@opt generics=<P: Path>
//@endfn
impl<P: Path> Path for TransparentDerefMapper<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_u8(0)) }
//@fn tr TransparentDerefMapper::Path::visit_hashes
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent.visit_hashes
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_u8(0), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
//@struct pi ReferencePath
//@opt generics=<'r, P: Path>
//@endfn
impl<'r, P: Path> Path for ReferencePath<'r, P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.0.segs() }
//@fn pi ReferencePath::Path::visit_hashes
//@endfn
}
impl<P: Path> Path for Rc<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { (**self).segs() }
//@fn pi Rc::Path::visit_hashes
//@endfn
}
impl<P: Path> Path for Box<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { (**self).segs() }
//@fn pi Box::Path::visit_hashes
//@endfn
}
/// the mapper that #[derive(Trackable)] makes for a field; the macro numbers the fields of a type
struct DerivedMapper<P: Path> { parent: P, field_index: usize }
impl<P: Path> Path for DerivedMapper<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(self.field_index)) }
//@fn gen quote::visit_hashes
//@opt interp=prefix->crate;; interp=parent_value_name->parent;; interp=field_index->self.field_index;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(self.field_index), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
} // verus!
