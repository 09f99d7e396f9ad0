//@file wa async_ui_web_core/src/combinators/utils/wakers/array/waker_array.rs
verus! {
impl<const N: usize> Ready for ReadinessArray<N> {
    spec fn ready_wf(&self) -> bool { self.wf() }
    spec fn ready_n(&self) -> nat { self.n() }
    spec fn ready_list(&self) -> Seq<usize> { self.list() }
    spec fn ready_parent(&self) -> int { self.parent() }
}
/// the bookkeeping behind Arc<Mutex<..>> is passed explicitly (rd); a lock guard is a reborrow of it
//@struct wa WakerArray
//@opt dropfield=inner
//@endfn
impl<const N: usize> WakerArray<N> {
//@fn wa WakerArray::get
//@opt expr=self.wakers.get(index)->vx_array_get(&self.wakers, index)
//@spec
    ensures index < N ==> r == Some(&self.wakers@[index as int]), index >= N ==> r.is_none(),
//@endfn
//@fn wa WakerArray::readiness
//@opt addparam=rd: &'a mut ReadinessArray<N>;; generics='a;; ret=&'a mut ReadinessArray<N>;; expr=self.inner.readiness.lock().unwrap()->rd
//@spec
    ensures *r == *old(rd), *final(rd) == *final(r),
//@endfn
}
/// WakerArray::new: Arc::new_cyclic and one waker per slot (unit cshared); the bookkeeping starts with every child awake (ReadinessArray::new)
#[verifier::external_body]
fn vx_waker_array<const N: usize>() -> (r: WakerArray<N>)
{ unimplemented!() }
} // verus!
