// made by tools/mkderive.py: what #[derive(Trackable)] makes of the types in proof/derx/samples.rs
//@include gen:derive_numbers.inc
verus! {
struct Mapper_N1_a<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N1_a<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N1_a())) }
//@fn dx Mapper_N1_a::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N1_a()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_N3_a<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N3_a<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N3_a())) }
//@fn dx Mapper_N3_a::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N3_a()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_N3_b<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N3_b<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N3_b())) }
//@fn dx Mapper_N3_b::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N3_b()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_N3_c<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N3_c<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N3_c())) }
//@fn dx Mapper_N3_c::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N3_c()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_N3()
    ensures
        number_Mapper_N3_b() != number_Mapper_N3_a(), // [X01,X02]
        number_Mapper_N3_c() != number_Mapper_N3_a(), // [X01,X02]
        number_Mapper_N3_c() != number_Mapper_N3_b(), // [X01,X02]
{
}
struct Mapper_N5_b<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N5_b<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N5_b())) }
//@fn dx Mapper_N5_b::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N5_b()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_N5_d<P: Path> { parent: P }
impl<P: Path> Path for Mapper_N5_d<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_N5_d())) }
//@fn dx Mapper_N5_d::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_N5_d()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_N5()
    ensures
        number_Mapper_N5_d() != number_Mapper_N5_b(), // [X01,X02]
{
}
struct Mapper_T3_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T3_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T3_t0())) }
//@fn dx Mapper_T3_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T3_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T3_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T3_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T3_t1())) }
//@fn dx Mapper_T3_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T3_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T3_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T3_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T3_t2())) }
//@fn dx Mapper_T3_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T3_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_T3()
    ensures
        number_Mapper_T3_t1() != number_Mapper_T3_t0(), // [X01,X02]
        number_Mapper_T3_t2() != number_Mapper_T3_t0(), // [X01,X02]
        number_Mapper_T3_t2() != number_Mapper_T3_t1(), // [X01,X02]
{
}
struct Mapper_T5_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T5_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T5_t1())) }
//@fn dx Mapper_T5_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T5_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T5_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T5_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T5_t3())) }
//@fn dx Mapper_T5_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T5_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T5_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T5_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T5_t4())) }
//@fn dx Mapper_T5_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T5_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_T5()
    ensures
        number_Mapper_T5_t3() != number_Mapper_T5_t1(), // [X01,X02]
        number_Mapper_T5_t4() != number_Mapper_T5_t1(), // [X01,X02]
        number_Mapper_T5_t4() != number_Mapper_T5_t3(), // [X01,X02]
{
}
struct Mapper_T12_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t0())) }
//@fn dx Mapper_T12_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t1())) }
//@fn dx Mapper_T12_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t2())) }
//@fn dx Mapper_T12_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t3())) }
//@fn dx Mapper_T12_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t4())) }
//@fn dx Mapper_T12_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t5())) }
//@fn dx Mapper_T12_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t6())) }
//@fn dx Mapper_T12_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t7())) }
//@fn dx Mapper_T12_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t8<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t8<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t8())) }
//@fn dx Mapper_T12_t8::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t8()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t9<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t9<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t9())) }
//@fn dx Mapper_T12_t9::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t9()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t10<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t10<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t10())) }
//@fn dx Mapper_T12_t10::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t10()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_T12_t11<P: Path> { parent: P }
impl<P: Path> Path for Mapper_T12_t11<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_T12_t11())) }
//@fn dx Mapper_T12_t11::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_T12_t11()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_T12()
    ensures
        number_Mapper_T12_t1() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t2() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t2() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t3() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t3() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t3() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t4() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t4() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t4() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t4() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t5() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t5() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t5() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t5() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t5() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t6() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t7() != number_Mapper_T12_t6(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t6(), // [X01,X02]
        number_Mapper_T12_t8() != number_Mapper_T12_t7(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t6(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t7(), // [X01,X02]
        number_Mapper_T12_t9() != number_Mapper_T12_t8(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t6(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t7(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t8(), // [X01,X02]
        number_Mapper_T12_t10() != number_Mapper_T12_t9(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t0(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t1(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t2(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t3(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t4(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t5(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t6(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t7(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t8(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t9(), // [X01,X02]
        number_Mapper_T12_t11() != number_Mapper_T12_t10(), // [X01,X02]
{
}
struct Mapper_E4_B_0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_B_0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_B_0())) }
//@fn dx Mapper_E4_B_0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_B_0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E4_B_1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_B_1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_B_1())) }
//@fn dx Mapper_E4_B_1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_B_1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E4_B_2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_B_2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_B_2())) }
//@fn dx Mapper_E4_B_2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_B_2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E4_C_x<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_C_x<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_C_x())) }
//@fn dx Mapper_E4_C_x::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_C_x()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E4_C_y<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_C_y<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_C_y())) }
//@fn dx Mapper_E4_C_y::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_C_y()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E4_F_0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E4_F_0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E4_F_0())) }
//@fn dx Mapper_E4_F_0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E4_F_0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_E4()
    ensures
        number_Mapper_E4_B_1() != number_Mapper_E4_B_0(), // [X01,X02]
        number_Mapper_E4_B_2() != number_Mapper_E4_B_0(), // [X01,X02]
        number_Mapper_E4_B_2() != number_Mapper_E4_B_1(), // [X01,X02]
        number_Mapper_E4_C_x() != number_Mapper_E4_B_0(), // [X01,X02]
        number_Mapper_E4_C_x() != number_Mapper_E4_B_1(), // [X01,X02]
        number_Mapper_E4_C_x() != number_Mapper_E4_B_2(), // [X01,X02]
        number_Mapper_E4_C_y() != number_Mapper_E4_B_0(), // [X01,X02]
        number_Mapper_E4_C_y() != number_Mapper_E4_B_1(), // [X01,X02]
        number_Mapper_E4_C_y() != number_Mapper_E4_B_2(), // [X01,X02]
        number_Mapper_E4_C_y() != number_Mapper_E4_C_x(), // [X01,X02]
        number_Mapper_E4_F_0() != number_Mapper_E4_B_0(), // [X01,X02]
        number_Mapper_E4_F_0() != number_Mapper_E4_B_1(), // [X01,X02]
        number_Mapper_E4_F_0() != number_Mapper_E4_B_2(), // [X01,X02]
        number_Mapper_E4_F_0() != number_Mapper_E4_C_x(), // [X01,X02]
        number_Mapper_E4_F_0() != number_Mapper_E4_C_y(), // [X01,X02]
{
}
struct Mapper_E3_B_1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_B_1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_B_1())) }
//@fn dx Mapper_E3_B_1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_B_1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E3_B_3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_B_3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_B_3())) }
//@fn dx Mapper_E3_B_3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_B_3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E3_C_y<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_C_y<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_C_y())) }
//@fn dx Mapper_E3_C_y::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_C_y()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E3_C_u<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_C_u<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_C_u())) }
//@fn dx Mapper_E3_C_u::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_C_u()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E3_F_0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_F_0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_F_0())) }
//@fn dx Mapper_E3_F_0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_F_0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E3_F_1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E3_F_1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E3_F_1())) }
//@fn dx Mapper_E3_F_1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E3_F_1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_E3()
    ensures
        number_Mapper_E3_B_3() != number_Mapper_E3_B_1(), // [X01,X02]
        number_Mapper_E3_C_y() != number_Mapper_E3_B_1(), // [X01,X02]
        number_Mapper_E3_C_y() != number_Mapper_E3_B_3(), // [X01,X02]
        number_Mapper_E3_C_u() != number_Mapper_E3_B_1(), // [X01,X02]
        number_Mapper_E3_C_u() != number_Mapper_E3_B_3(), // [X01,X02]
        number_Mapper_E3_C_u() != number_Mapper_E3_C_y(), // [X01,X02]
        number_Mapper_E3_F_0() != number_Mapper_E3_B_1(), // [X01,X02]
        number_Mapper_E3_F_0() != number_Mapper_E3_B_3(), // [X01,X02]
        number_Mapper_E3_F_0() != number_Mapper_E3_C_y(), // [X01,X02]
        number_Mapper_E3_F_0() != number_Mapper_E3_C_u(), // [X01,X02]
        number_Mapper_E3_F_1() != number_Mapper_E3_B_1(), // [X01,X02]
        number_Mapper_E3_F_1() != number_Mapper_E3_B_3(), // [X01,X02]
        number_Mapper_E3_F_1() != number_Mapper_E3_C_y(), // [X01,X02]
        number_Mapper_E3_F_1() != number_Mapper_E3_C_u(), // [X01,X02]
        number_Mapper_E3_F_1() != number_Mapper_E3_F_0(), // [X01,X02]
{
}
struct Mapper_E1_B_0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E1_B_0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E1_B_0())) }
//@fn dx Mapper_E1_B_0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E1_B_0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_E1_B_1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_E1_B_1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_Mapper_E1_B_1())) }
//@fn dx Mapper_E1_B_1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_Mapper_E1_B_1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_E1()
    ensures
        number_Mapper_E1_B_1() != number_Mapper_E1_B_0(), // [X01,X02]
{
}
struct Mapper_tuple_1_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_1_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_1_Mapper_Tuple_t0())) }
//@fn du1 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_1_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_2_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_2_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_2_Mapper_Tuple_t0())) }
//@fn du2 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_2_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_2_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_2_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_2_Mapper_Tuple_t1())) }
//@fn du2 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_2_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_2()
    ensures
        number_2_Mapper_Tuple_t1() != number_2_Mapper_Tuple_t0(), // [X01,X02]
{
}
struct Mapper_tuple_3_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_3_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_3_Mapper_Tuple_t0())) }
//@fn du3 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_3_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_3_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_3_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_3_Mapper_Tuple_t1())) }
//@fn du3 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_3_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_3_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_3_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_3_Mapper_Tuple_t2())) }
//@fn du3 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_3_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_3()
    ensures
        number_3_Mapper_Tuple_t1() != number_3_Mapper_Tuple_t0(), // [X01,X02]
        number_3_Mapper_Tuple_t2() != number_3_Mapper_Tuple_t0(), // [X01,X02]
        number_3_Mapper_Tuple_t2() != number_3_Mapper_Tuple_t1(), // [X01,X02]
{
}
struct Mapper_tuple_4_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_4_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_4_Mapper_Tuple_t0())) }
//@fn du4 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_4_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_4_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_4_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_4_Mapper_Tuple_t1())) }
//@fn du4 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_4_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_4_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_4_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_4_Mapper_Tuple_t2())) }
//@fn du4 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_4_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_4_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_4_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_4_Mapper_Tuple_t3())) }
//@fn du4 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_4_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_4()
    ensures
        number_4_Mapper_Tuple_t1() != number_4_Mapper_Tuple_t0(), // [X01,X02]
        number_4_Mapper_Tuple_t2() != number_4_Mapper_Tuple_t0(), // [X01,X02]
        number_4_Mapper_Tuple_t2() != number_4_Mapper_Tuple_t1(), // [X01,X02]
        number_4_Mapper_Tuple_t3() != number_4_Mapper_Tuple_t0(), // [X01,X02]
        number_4_Mapper_Tuple_t3() != number_4_Mapper_Tuple_t1(), // [X01,X02]
        number_4_Mapper_Tuple_t3() != number_4_Mapper_Tuple_t2(), // [X01,X02]
{
}
struct Mapper_tuple_5_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_5_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_5_Mapper_Tuple_t0())) }
//@fn du5 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_5_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_5_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_5_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_5_Mapper_Tuple_t1())) }
//@fn du5 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_5_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_5_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_5_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_5_Mapper_Tuple_t2())) }
//@fn du5 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_5_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_5_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_5_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_5_Mapper_Tuple_t3())) }
//@fn du5 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_5_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_5_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_5_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_5_Mapper_Tuple_t4())) }
//@fn du5 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_5_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_5()
    ensures
        number_5_Mapper_Tuple_t1() != number_5_Mapper_Tuple_t0(), // [X01,X02]
        number_5_Mapper_Tuple_t2() != number_5_Mapper_Tuple_t0(), // [X01,X02]
        number_5_Mapper_Tuple_t2() != number_5_Mapper_Tuple_t1(), // [X01,X02]
        number_5_Mapper_Tuple_t3() != number_5_Mapper_Tuple_t0(), // [X01,X02]
        number_5_Mapper_Tuple_t3() != number_5_Mapper_Tuple_t1(), // [X01,X02]
        number_5_Mapper_Tuple_t3() != number_5_Mapper_Tuple_t2(), // [X01,X02]
        number_5_Mapper_Tuple_t4() != number_5_Mapper_Tuple_t0(), // [X01,X02]
        number_5_Mapper_Tuple_t4() != number_5_Mapper_Tuple_t1(), // [X01,X02]
        number_5_Mapper_Tuple_t4() != number_5_Mapper_Tuple_t2(), // [X01,X02]
        number_5_Mapper_Tuple_t4() != number_5_Mapper_Tuple_t3(), // [X01,X02]
{
}
struct Mapper_tuple_6_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t0())) }
//@fn du6 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_6_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t1())) }
//@fn du6 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_6_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t2())) }
//@fn du6 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_6_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t3())) }
//@fn du6 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_6_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t4())) }
//@fn du6 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_6_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_6_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_6_Mapper_Tuple_t5())) }
//@fn du6 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_6_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_6()
    ensures
        number_6_Mapper_Tuple_t1() != number_6_Mapper_Tuple_t0(), // [X01,X02]
        number_6_Mapper_Tuple_t2() != number_6_Mapper_Tuple_t0(), // [X01,X02]
        number_6_Mapper_Tuple_t2() != number_6_Mapper_Tuple_t1(), // [X01,X02]
        number_6_Mapper_Tuple_t3() != number_6_Mapper_Tuple_t0(), // [X01,X02]
        number_6_Mapper_Tuple_t3() != number_6_Mapper_Tuple_t1(), // [X01,X02]
        number_6_Mapper_Tuple_t3() != number_6_Mapper_Tuple_t2(), // [X01,X02]
        number_6_Mapper_Tuple_t4() != number_6_Mapper_Tuple_t0(), // [X01,X02]
        number_6_Mapper_Tuple_t4() != number_6_Mapper_Tuple_t1(), // [X01,X02]
        number_6_Mapper_Tuple_t4() != number_6_Mapper_Tuple_t2(), // [X01,X02]
        number_6_Mapper_Tuple_t4() != number_6_Mapper_Tuple_t3(), // [X01,X02]
        number_6_Mapper_Tuple_t5() != number_6_Mapper_Tuple_t0(), // [X01,X02]
        number_6_Mapper_Tuple_t5() != number_6_Mapper_Tuple_t1(), // [X01,X02]
        number_6_Mapper_Tuple_t5() != number_6_Mapper_Tuple_t2(), // [X01,X02]
        number_6_Mapper_Tuple_t5() != number_6_Mapper_Tuple_t3(), // [X01,X02]
        number_6_Mapper_Tuple_t5() != number_6_Mapper_Tuple_t4(), // [X01,X02]
{
}
struct Mapper_tuple_7_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t0())) }
//@fn du7 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t1())) }
//@fn du7 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t2())) }
//@fn du7 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t3())) }
//@fn du7 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t4())) }
//@fn du7 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t5())) }
//@fn du7 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_7_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_7_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_7_Mapper_Tuple_t6())) }
//@fn du7 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_7_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_7()
    ensures
        number_7_Mapper_Tuple_t1() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t2() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t2() != number_7_Mapper_Tuple_t1(), // [X01,X02]
        number_7_Mapper_Tuple_t3() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t3() != number_7_Mapper_Tuple_t1(), // [X01,X02]
        number_7_Mapper_Tuple_t3() != number_7_Mapper_Tuple_t2(), // [X01,X02]
        number_7_Mapper_Tuple_t4() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t4() != number_7_Mapper_Tuple_t1(), // [X01,X02]
        number_7_Mapper_Tuple_t4() != number_7_Mapper_Tuple_t2(), // [X01,X02]
        number_7_Mapper_Tuple_t4() != number_7_Mapper_Tuple_t3(), // [X01,X02]
        number_7_Mapper_Tuple_t5() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t5() != number_7_Mapper_Tuple_t1(), // [X01,X02]
        number_7_Mapper_Tuple_t5() != number_7_Mapper_Tuple_t2(), // [X01,X02]
        number_7_Mapper_Tuple_t5() != number_7_Mapper_Tuple_t3(), // [X01,X02]
        number_7_Mapper_Tuple_t5() != number_7_Mapper_Tuple_t4(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t0(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t1(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t2(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t3(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t4(), // [X01,X02]
        number_7_Mapper_Tuple_t6() != number_7_Mapper_Tuple_t5(), // [X01,X02]
{
}
struct Mapper_tuple_8_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t0())) }
//@fn du8 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t1())) }
//@fn du8 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t2())) }
//@fn du8 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t3())) }
//@fn du8 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t4())) }
//@fn du8 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t5())) }
//@fn du8 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t6())) }
//@fn du8 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_8_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_8_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_8_Mapper_Tuple_t7())) }
//@fn du8 Mapper_Tuple_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_8_Mapper_Tuple_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_8()
    ensures
        number_8_Mapper_Tuple_t1() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t2() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t2() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t3() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t3() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t3() != number_8_Mapper_Tuple_t2(), // [X01,X02]
        number_8_Mapper_Tuple_t4() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t4() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t4() != number_8_Mapper_Tuple_t2(), // [X01,X02]
        number_8_Mapper_Tuple_t4() != number_8_Mapper_Tuple_t3(), // [X01,X02]
        number_8_Mapper_Tuple_t5() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t5() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t5() != number_8_Mapper_Tuple_t2(), // [X01,X02]
        number_8_Mapper_Tuple_t5() != number_8_Mapper_Tuple_t3(), // [X01,X02]
        number_8_Mapper_Tuple_t5() != number_8_Mapper_Tuple_t4(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t2(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t3(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t4(), // [X01,X02]
        number_8_Mapper_Tuple_t6() != number_8_Mapper_Tuple_t5(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t0(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t1(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t2(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t3(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t4(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t5(), // [X01,X02]
        number_8_Mapper_Tuple_t7() != number_8_Mapper_Tuple_t6(), // [X01,X02]
{
}
struct Mapper_tuple_9_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t0())) }
//@fn du9 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t1())) }
//@fn du9 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t2())) }
//@fn du9 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t3())) }
//@fn du9 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t4())) }
//@fn du9 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t5())) }
//@fn du9 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t6())) }
//@fn du9 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t7())) }
//@fn du9 Mapper_Tuple_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_9_t8<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_9_t8<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_9_Mapper_Tuple_t8())) }
//@fn du9 Mapper_Tuple_t8::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_9_Mapper_Tuple_t8()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_9()
    ensures
        number_9_Mapper_Tuple_t1() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t2() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t2() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t3() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t3() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t3() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t4() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t4() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t4() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t4() != number_9_Mapper_Tuple_t3(), // [X01,X02]
        number_9_Mapper_Tuple_t5() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t5() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t5() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t5() != number_9_Mapper_Tuple_t3(), // [X01,X02]
        number_9_Mapper_Tuple_t5() != number_9_Mapper_Tuple_t4(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t3(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t4(), // [X01,X02]
        number_9_Mapper_Tuple_t6() != number_9_Mapper_Tuple_t5(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t3(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t4(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t5(), // [X01,X02]
        number_9_Mapper_Tuple_t7() != number_9_Mapper_Tuple_t6(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t0(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t1(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t2(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t3(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t4(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t5(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t6(), // [X01,X02]
        number_9_Mapper_Tuple_t8() != number_9_Mapper_Tuple_t7(), // [X01,X02]
{
}
struct Mapper_tuple_10_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t0())) }
//@fn du10 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t1())) }
//@fn du10 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t2())) }
//@fn du10 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t3())) }
//@fn du10 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t4())) }
//@fn du10 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t5())) }
//@fn du10 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t6())) }
//@fn du10 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t7())) }
//@fn du10 Mapper_Tuple_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t8<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t8<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t8())) }
//@fn du10 Mapper_Tuple_t8::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t8()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_10_t9<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_10_t9<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_10_Mapper_Tuple_t9())) }
//@fn du10 Mapper_Tuple_t9::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_10_Mapper_Tuple_t9()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_10()
    ensures
        number_10_Mapper_Tuple_t1() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t2() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t2() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t3() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t3() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t3() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t4() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t4() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t4() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t4() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t5() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t5() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t5() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t5() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t5() != number_10_Mapper_Tuple_t4(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t4(), // [X01,X02]
        number_10_Mapper_Tuple_t6() != number_10_Mapper_Tuple_t5(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t4(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t5(), // [X01,X02]
        number_10_Mapper_Tuple_t7() != number_10_Mapper_Tuple_t6(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t4(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t5(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t6(), // [X01,X02]
        number_10_Mapper_Tuple_t8() != number_10_Mapper_Tuple_t7(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t0(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t1(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t2(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t3(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t4(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t5(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t6(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t7(), // [X01,X02]
        number_10_Mapper_Tuple_t9() != number_10_Mapper_Tuple_t8(), // [X01,X02]
{
}
struct Mapper_tuple_11_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t0())) }
//@fn du11 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t1())) }
//@fn du11 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t2())) }
//@fn du11 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t3())) }
//@fn du11 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t4())) }
//@fn du11 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t5())) }
//@fn du11 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t6())) }
//@fn du11 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t7())) }
//@fn du11 Mapper_Tuple_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t8<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t8<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t8())) }
//@fn du11 Mapper_Tuple_t8::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t8()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t9<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t9<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t9())) }
//@fn du11 Mapper_Tuple_t9::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t9()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_11_t10<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_11_t10<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_11_Mapper_Tuple_t10())) }
//@fn du11 Mapper_Tuple_t10::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_11_Mapper_Tuple_t10()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_11()
    ensures
        number_11_Mapper_Tuple_t1() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t2() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t2() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t3() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t3() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t3() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t4() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t4() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t4() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t4() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t5() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t5() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t5() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t5() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t5() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t6() != number_11_Mapper_Tuple_t5(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t5(), // [X01,X02]
        number_11_Mapper_Tuple_t7() != number_11_Mapper_Tuple_t6(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t5(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t6(), // [X01,X02]
        number_11_Mapper_Tuple_t8() != number_11_Mapper_Tuple_t7(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t5(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t6(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t7(), // [X01,X02]
        number_11_Mapper_Tuple_t9() != number_11_Mapper_Tuple_t8(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t0(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t1(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t2(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t3(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t4(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t5(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t6(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t7(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t8(), // [X01,X02]
        number_11_Mapper_Tuple_t10() != number_11_Mapper_Tuple_t9(), // [X01,X02]
{
}
struct Mapper_tuple_12_t0<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t0<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t0())) }
//@fn du12 Mapper_Tuple_t0::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t0()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t1<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t1<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t1())) }
//@fn du12 Mapper_Tuple_t1::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t1()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t2<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t2<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t2())) }
//@fn du12 Mapper_Tuple_t2::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t2()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t3<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t3<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t3())) }
//@fn du12 Mapper_Tuple_t3::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t3()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t4<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t4<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t4())) }
//@fn du12 Mapper_Tuple_t4::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t4()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t5<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t5<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t5())) }
//@fn du12 Mapper_Tuple_t5::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t5()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t6<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t6<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t6())) }
//@fn du12 Mapper_Tuple_t6::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t6()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t7<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t7<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t7())) }
//@fn du12 Mapper_Tuple_t7::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t7()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t8<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t8<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t8())) }
//@fn du12 Mapper_Tuple_t8::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t8()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t9<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t9<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t9())) }
//@fn du12 Mapper_Tuple_t9::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t9()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t10<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t10<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t10())) }
//@fn du12 Mapper_Tuple_t10::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t10()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
struct Mapper_tuple_12_t11<P: Path> { parent: P }
impl<P: Path> Path for Mapper_tuple_12_t11<P> {
    spec fn segs(&self) -> Seq<Seq<int>> { self.parent.segs().push(tok_usize(number_12_Mapper_Tuple_t11())) }
//@fn du12 Mapper_Tuple_t11::Path::visit_hashes
//@opt ufcs=Path;; path=Hasher::write_usize->HasherType::write_usize
//@begin
    let ghost v0 = *visitor; let ghost l0 = w.log@;
//@after self.parent
    let ghost v1 = *visitor; let ghost l1 = w.log@;
    proof { ready_after(v0, self.parent.segs(), v1, l0, l1); }
//@before visitor.finish_one
    let ghost v2 = *visitor;
//@end
    proof { visit_push(v0, self.parent.segs(), v1, tok_usize(number_12_Mapper_Tuple_t11()), v2, *visitor, l0, l1, w.log@); }
//@endfn
}
/// the members of a type are told apart
proof fn apart_tuple_12()
    ensures
        number_12_Mapper_Tuple_t1() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t2() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t2() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t3() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t3() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t3() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t4() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t4() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t4() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t4() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t5() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t5() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t5() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t5() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t5() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t6() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t7() != number_12_Mapper_Tuple_t6(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t6(), // [X01,X02]
        number_12_Mapper_Tuple_t8() != number_12_Mapper_Tuple_t7(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t6(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t7(), // [X01,X02]
        number_12_Mapper_Tuple_t9() != number_12_Mapper_Tuple_t8(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t6(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t7(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t8(), // [X01,X02]
        number_12_Mapper_Tuple_t10() != number_12_Mapper_Tuple_t9(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t0(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t1(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t2(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t3(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t4(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t5(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t6(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t7(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t8(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t9(), // [X01,X02]
        number_12_Mapper_Tuple_t11() != number_12_Mapper_Tuple_t10(), // [X01,X02]
{
}
} // verus!
