//! Counting wakers.
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Wake, Waker};

pub struct Counter(pub AtomicUsize);
impl Wake for Counter {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
#[derive(Clone)]
pub struct CW {
    pub c: Arc<Counter>,
    pub w: Waker,
}
impl CW {
    pub fn new() -> Self {
        let c = Arc::new(Counter(AtomicUsize::new(0)));
        CW { w: Waker::from(c.clone()), c }
    }
    pub fn n(&self) -> usize {
        self.c.0.load(SeqCst)
    }
    pub fn take(&self) -> usize {
        self.c.0.swap(0, SeqCst)
    }
}
