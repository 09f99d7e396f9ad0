verus! {
// ======== core::task, as transparent copies ========
pub enum Poll<T> { Ready(T), Pending }
impl<T> Poll<T> {
    pub fn is_ready(&self) -> (r: bool)
        ensures r == (*self is Ready),
    { match self { Poll::Ready(_) => true, Poll::Pending => false } }
    pub fn is_pending(&self) -> (r: bool)
        ensures r == (*self is Pending),
    { match self { Poll::Ready(_) => false, Poll::Pending => true } }
}
pub struct Context<'a> { pub waker: &'a Waker }
impl<'a> Context<'a> {
    pub open spec fn task(&self) -> int { self.waker.task() }
    pub fn waker(&self) -> (r: &'a Waker)
        ensures r.task() == self.task(),
    { self.waker }
    pub fn from_waker(waker: &'a Waker) -> (r: Context<'a>)
        ensures r.task() == waker.task(),
    { Context { waker } }
}
} // verus!
