//! M02: `select!` with 1 to 12 branches of many forms, under every order of completions and wakes.
use crate::core::*;
use crate::util::CW;
use async_ui_web::select;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

pub fn all() -> Vec<(&'static str, Case)> {
    vec![("M02", m02)]
}
pub fn find(p: &str) -> Option<Case> {
    all().into_iter().find(|x| x.0 == p).map(|x| x.1)
}

#[derive(Default)]
struct Child {
    made: u32,
    dropped: u32,
    polls: u32,
    ready: bool,
    /// it returned Ready
    gave: bool,
    waker: Option<Waker>,
}
#[derive(Default)]
struct World {
    ch: RefCell<Vec<Child>>,
    handled: RefCell<Vec<usize>>,
    bad: RefCell<Option<String>>,
    finished: Cell<bool>,
}
type W = Rc<World>;
/// the output of child i: made by the child alone
#[derive(Debug, PartialEq)]
struct Out {
    of: usize,
    twice: (usize, usize),
}
struct Fut {
    w: W,
    i: usize,
}
impl World {
    fn fault(&self, s: String) {
        self.bad.borrow_mut().get_or_insert(s);
    }
    /// the handler (which does nothing itself) of whichever branch completed
    fn some(&self) -> usize {
        let i = self.ch.borrow().iter().position(|c| c.gave);
        i.map_or(0, |i| self.handler(i, i))
    }
    /// handler i begins, with the output of child i
    fn handler(&self, i: usize, of: usize) -> usize {
        let c = self.ch.borrow();
        if of != i {
            self.fault(format!("the handler of branch {i} was given the output of branch {of}"));
        }
        if !c[i].gave {
            self.fault(format!("the handler of branch {i} runs and its future has not completed"));
        }
        for (j, x) in c.iter().enumerate() {
            if x.made != x.dropped {
                self.fault(format!("the future of branch {j} is still there when the handler of branch {i} runs"));
            }
        }
        self.handled.borrow_mut().push(i);
        100 + i
    }
}
fn fut(w: &W, i: usize) -> Fut {
    let mut c = w.ch.borrow_mut();
    c[i].made += 1;
    if c[i].made > 1 {
        w.fault(format!("the future of branch {i} was made twice"));
    }
    Fut { w: w.clone(), i }
}
impl Drop for Fut {
    fn drop(&mut self) {
        self.w.ch.borrow_mut()[self.i].dropped += 1;
    }
}
impl Future for Fut {
    type Output = Out;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let mut ch = self.w.ch.borrow_mut();
        let c = &mut ch[self.i];
        c.polls += 1;
        c.waker = Some(cx.waker().clone());
        if c.gave {
            self.w.fault(format!("the future of branch {} was polled after it had completed", self.i));
        }
        if c.ready {
            c.gave = true;
            Poll::Ready(Out { of: self.i, twice: (self.i, 2 * self.i) })
        } else {
            Poll::Pending
        }
    }
}

type BF = Pin<Box<dyn Future<Output = usize>>>;
/// every branch a pattern binding the output, a call and an expression
macro_rules! plain {
    ($w:ident $($i:literal)*) => { Box::pin(async move { select! { $( v = fut(&$w, $i) => $w.handler($i, v.of) ),* } }) };
}
/// blocks as handlers, no commas between them, futures taken by reference
macro_rules! blocks {
    ($w:ident $($i:literal $x:ident)*) => { Box::pin(async move {
        $( let mut $x = fut(&$w, $i); )*
        let mut sum = 0;
        $( let $x = &mut $x; let _ = &$x; )*
        let r = select! { $( Out { of, twice: (a, b) } = async { let o = $x.await; o } => { sum += a + b; assert_eq!(sum, 3 * a); of } )* };
        r
    }) };
}
fn of(n: usize, w: &W) -> BF {
    let w = w.clone();
    match n {
        1 => plain!(w 0),
        2 => plain!(w 0 1),
        3 => plain!(w 0 1 2),
        4 => plain!(w 0 1 2 3),
        5 => plain!(w 0 1 2 3 4),
        6 => plain!(w 0 1 2 3 4 5),
        7 => plain!(w 0 1 2 3 4 5 6),
        8 => plain!(w 0 1 2 3 4 5 6 7),
        9 => plain!(w 0 1 2 3 4 5 6 7 8),
        10 => plain!(w 0 1 2 3 4 5 6 7 8 9),
        11 => plain!(w 0 1 2 3 4 5 6 7 8 9 10),
        _ => plain!(w 0 1 2 3 4 5 6 7 8 9 10 11),
    }
}
/// forms of branches; each answers with what its handler's function gave
const FORMS: usize = 10;
fn form(k: usize, w: &W) -> (usize, BF) {
    let w = w.clone();
    match k {
        // blocks with and without commas, patterns of several kinds
        0 => (4, Box::pin(async move {
            select! {
                Out { of, .. } = fut(&w, 0) => { w.handler(0, of) }
                out @ Out { .. } = fut(&w, 1) => { let o = out; w.handler(1, o.of) },
                Out { twice: (a, b), .. } = fut(&w, 2) => { assert_eq!(2 * a, b); w.handler(2, a) }
                mut o = fut(&w, 3) => { o.of += 1; w.handler(3, o.of - 1) }
            }
        })),
        // no comma after the last; handlers that are larger expressions
        1 => (3, Box::pin(async move {
            select! {
                a = fut(&w, 0) => if a.of == 0 { w.handler(0, a.of) } else { 0 },
                b = fut(&w, 1) => match b { Out { of, .. } => w.handler(1, of) },
                c = fut(&w, 2) => w.handler(2, c.of) + { let v = 0; v },
            }
        })),
        // handlers that use what the futures borrow
        2 => (3, Box::pin(async move {
            let mut log = vec![];
            let mut owned = String::new();
            let r = select! {
                v = async { owned.push('a'); fut(&w, 0).await } => { log.push(v.of); owned.push('x'); w.handler(0, v.of) },
                v = fut(&w, 1) => { log.push(v.of); owned.push('y'); w.handler(1, v.of) }
                v = fut(&w, 2) => { log.push(v.of); owned.clear(); w.handler(2, v.of) }
            };
            if log.len() != 1 {
                w.fault(format!("the handlers were run {} times", log.len()));
            }
            r
        })),
        // handlers that leave the block around them, in a loop
        3 => (3, Box::pin(async move {
            let mut r = 0;
            loop {
                if r != 0 {
                    w.fault("the loop went round again".into());
                    break r;
                }
                r = select! {
                    v = fut(&w, 0) => break w.handler(0, v.of),
                    v = fut(&w, 1) => { r = w.handler(1, v.of); break r }
                    v = fut(&w, 2) => return w.handler(2, v.of),
                };
            }
        })),
        // handlers that wait, futures that are larger expressions
        4 => (3, Box::pin(async move {
            let first = true;
            select! {
                v = if first { fut(&w, 0) } else { fut(&w, 1) } => { let n = w.handler(0, v.of); async {}.await; n }
                v = { let x = 1; fut(&w, x) } => { async { w.handler(1, v.of) }.await }
                v = match first { _ => fut(&w, 2) } => async { w.handler(2, v.of) }.await,
            }
        })),
        // futures given by reference and kept by the caller
        5 => (3, Box::pin(async move {
            let (mut a, mut b) = (fut(&w, 0), fut(&w, 1));
            let c = RefCell::new(Some(fut(&w, 2)));
            let r = select! {
                v = &mut a => v.of,
                v = &mut b => v.of,
                v = c.borrow_mut().take().unwrap() => v.of,
            };
            drop((a, b, c));
            w.handler(r, r)
        })),
        // select within select: in a future, and in a handler
        6 => (4, Box::pin(async move {
            select! {
                v = async { select! { x = fut(&w, 0) => x, y = fut(&w, 1) => y } } => w.handler(v.of, v.of),
                v = fut(&w, 2) => select! { n = async { w.handler(2, v.of) } => n },
                _ = fut(&w, 3) => w.handler(3, 3),
            }
        })),
        // handlers that do nothing
        7 => (3, Box::pin(async move {
            select! {
                _ = fut(&w, 0) => {}
                _o = fut(&w, 1) => {},
                Out { .. } = fut(&w, 2) => (),
            };
            w.some()
        })),
        // one branch, and its handler a block that does nothing
        8 => (1, Box::pin(async move {
            select! { _ = fut(&w, 0) => {} };
            w.some()
        })),
        // patterns that take and ignore
        _ => (5, blocks_world(w)),
    }
}
fn blocks_world(w: W) -> BF {
    let f: BF = {
        let w = w.clone();
        blocks!(w 0 a 1 b 2 c 3 d 4 e)
    };
    Box::pin(async move {
        let r = f.await;
        w.handler(r, r)
    })
}

pub fn m02(s: &mut Src) -> Result<(), String> {
    let w: W = Rc::new(World::default());
    let few = s.size == 0;
    let k = s.pick(2);
    let (n, f) = if k == 0 {
        let n = 1 + s.pick(if few { 3 } else { 12 });
        s.t(format!("select! with {n} branches"));
        (n, of(n, &w))
    } else {
        let k = s.pick(FORMS);
        let (n, f) = form(k, &w);
        s.t(format!("select! of form {k} with {n} branches"));
        (n, f)
    };
    w.ch.borrow_mut().resize_with(n, Child::default);
    // combinators are awaited within a root
    let root: web_sys::Node = web_sys::window().unwrap().document().unwrap().create_element("div").unwrap().into();
    let mut f = Some(Box::pin(async_ui_web_core::ContainerNodeFuture::new_root(f, root)));
    let task = CW::new();
    let steps = 1 + s.steps(4, 20);
    let mut polled = false;
    let mut result = None;
    let mut woken = 0;
    for _ in 0..steps {
        match s.pick(4) {
            0 | 1 => {
                // a branch becomes ready (at once, or several before the next poll)
                let i = s.pick(n);
                s.t(format!("branch {i} is ready"));
                let wk = {
                    let mut c = w.ch.borrow_mut();
                    c[i].ready = c[i].made == 0 || c[i].dropped == 0;
                    if c[i].made == c[i].dropped { None } else { c[i].waker.take() }
                };
                let had = wk.is_some();
                if let Some(k) = wk {
                    k.wake();
                }
                if had && result.is_none() && f.is_some() {
                    ensure!(task.n() > woken, "branch {i} woke and the task was not woken");
                    s.hit("a branch woken after a poll");
                }
            }
            2 => {
                let Some(g) = f.as_mut() else { continue };
                s.t("poll");
                polled = true;
                woken = task.n();
                let some_ready = w.ch.borrow().iter().any(|c| c.ready);
                match g.as_mut().poll(&mut Context::from_waker(&task.w)) {
                    Poll::Ready(v) => {
                        s.t(format!("completed with {v}"));
                        result = Some(v);
                        ensure!(some_ready, "it completed and no branch was ready");
                        f = None;
                        s.hit("completed");
                    }
                    Poll::Pending => {
                        let still = w.ch.borrow().iter().any(|c| c.ready);
                        ensure!(!still, "a branch was ready and it did not complete");
                        ensure!(w.handled.borrow().is_empty(), "a handler ran and it did not complete");
                        s.hit("pending");
                    }
                }
                if result.is_some() {
                    break;
                }
            }
            _ => {
                if s.rare(3) && f.is_some() {
                    s.t("drop it");
                    f = None;
                    if polled {
                        s.hit("dropped while waiting");
                    }
                }
            }
        }
    }
    drop(f);
    if let Some(b) = w.bad.borrow().clone() {
        return Err(b);
    }
    let c = w.ch.borrow();
    for (j, x) in c.iter().enumerate() {
        ensure!(x.made == x.dropped, "the future of branch {j} was never dropped");
    }
    let h = w.handled.borrow();
    match result {
        Some(v) => {
            ensure!(h.len() == 1, "{} handlers ran: {h:?}", h.len());
            ensure!(v == 100 + h[0] || v == h[0], "the handler of branch {} ran and its value is not the result: {v}", h[0]);
            ensure!(c.iter().filter(|c| c.gave).count() == 1, "more than one branch was polled to its end");
        }
        None => ensure!(h.is_empty(), "a handler ran and there is no result"),
    }
    let _ = w.finished.get();
    Ok(())
}
