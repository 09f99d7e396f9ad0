//! C01-C04: combinators over scripted children.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use async_ui_web_core::combinators::{join, race, race_ok, try_join};
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct ChSt {
    completed: bool,
    ready: bool,
    ok: bool,
    wake_self: usize,
    wake_other: Option<usize>,
    wakers: Vec<Waker>,
    /// waker fired since this child was last polled / since the last combinator poll began
    since_child: bool,
    since_poll: bool,
    dropped: usize,
    token_dropped: usize,
    token_made: bool,
    payload: bool,
}
#[derive(Default)]
struct World {
    ch: RefCell<Vec<ChSt>>,
    order: RefCell<Vec<usize>>,
    bad: RefCell<Option<String>>,
    in_poll: Cell<bool>,
}
struct Tok {
    i: usize,
    w: Rc<World>,
    /// a live allocation, so that a double drop is also a double free
    _b: Box<usize>,
}
impl Drop for Tok {
    fn drop(&mut self) {
        self.w.ch.borrow_mut()[self.i].token_dropped += 1;
    }
}
impl World {
    fn wake(&self, i: usize, k: usize, consume: bool) -> bool {
        let w = {
            let mut c = self.ch.borrow_mut();
            let st = &mut c[i];
            if st.wakers.is_empty() {
                return false;
            }
            st.since_child = true;
            st.since_poll = true;
            let k = k % st.wakers.len();
            if consume {
                st.wakers.remove(k)
            } else {
                st.wakers[k].clone()
            }
        };
        if consume {
            w.wake();
        } else {
            w.wake_by_ref();
        }
        true
    }
    /// Common poll of a child: Some((ok, token)) when ready.
    fn poll_child(self: &Rc<Self>, i: usize, cx: &mut Context<'_>) -> Option<(bool, Tok)> {
        self.order.borrow_mut().push(i);
        if !self.in_poll.get() {
            *self.bad.borrow_mut() = Some(format!("child {i} polled outside a poll"));
        }
        let (ready, ws, wo) = {
            let mut c = self.ch.borrow_mut();
            let st = &mut c[i];
            if st.completed {
                *self.bad.borrow_mut() = Some(format!("child {i} polled again after completing"));
            }
            st.since_child = false;
            st.wakers.push(cx.waker().clone());
            if st.wakers.len() > 4 {
                let old = st.wakers.remove(0);
                drop(old);
            }
            (st.ready, st.wake_self, st.wake_other)
        };
        for _ in 0..ws {
            let n = self.ch.borrow()[i].wakers.len();
            self.wake(i, n - 1, false);
        }
        if let Some(j) = wo {
            self.wake(j, 0, false);
        }
        if ready {
            let mut c = self.ch.borrow_mut();
            c[i].completed = true;
            c[i].token_made = true;
            let ok = c[i].ok;
            Some((ok, Tok { i, w: self.clone(), _b: Box::new(i) }))
        } else {
            None
        }
    }
}
struct ChA {
    i: usize,
    w: Rc<World>,
    _pin: std::marker::PhantomPinned,
    addr: Cell<usize>,
}
struct ChR(ChA);
impl ChA {
    fn check_addr(&self) {
        let a = self as *const _ as usize;
        if self.addr.get() != 0 && self.addr.get() != a {
            *self.w.bad.borrow_mut() = Some(format!("child {} moved after being polled", self.i));
        }
        self.addr.set(a);
    }
}
impl Future for ChA {
    type Output = Tok;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Tok> {
        self.check_addr();
        match self.w.poll_child(self.i, cx) {
            Some((_, t)) => Poll::Ready(t),
            None => Poll::Pending,
        }
    }
}
impl Future for ChR {
    type Output = Result<Tok, Tok>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Tok, Tok>> {
        self.0.check_addr();
        match self.0.w.poll_child(self.0.i, cx) {
            Some((true, t)) => Poll::Ready(Ok(t)),
            Some((false, t)) => Poll::Ready(Err(t)),
            None => Poll::Pending,
        }
    }
}
impl Drop for ChA {
    fn drop(&mut self) {
        self.w.ch.borrow_mut()[self.i].dropped += 1;
    }
}
enum Res {
    All(Vec<Tok>),
    One(Tok),
    OkAll(Vec<Tok>),
    Err(Tok),
    Ok(Tok),
    ErrAll(Vec<Tok>),
}
struct Map<F, G>(F, G);
impl<F: Future, G: Fn(F::Output) -> Res> Future for Map<F, G> {
    type Output = Res;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Res> {
        let (f, g) = unsafe {
            let t = self.get_unchecked_mut();
            (Pin::new_unchecked(&mut t.0), &t.1)
        };
        f.poll(cx).map(g)
    }
}
type BF = Pin<Box<dyn Future<Output = Res>>>;

macro_rules! tuple_case {
    ($op:expr, $w:expr; $($i:tt $v:ident)*) => {{
        let a = |i| ChA { i, w: $w.clone(), _pin: Default::default(), addr: Cell::new(0) };
        match $op {
            0 => Box::pin(Map(join(($(a($i),)*)), |($($v,)*)| Res::All(vec![$($v),*]))) as BF,
            1 => Box::pin(Map(race(($(a($i),)*)), Res::One)) as BF,
            2 => Box::pin(Map(try_join(($(ChR(a($i)),)*)), |r| match r { Ok(($($v,)*)) => Res::OkAll(vec![$($v),*]), Err(e) => Res::Err(e) })) as BF,
            _ => Box::pin(Map(race_ok(($(ChR(a($i)),)*)), |r| match r { Ok(t) => Res::Ok(t), Err(($($v,)*)) => Res::ErrAll(vec![$($v),*]) })) as BF,
        }
    }};
}
fn arr<const N: usize>(op: usize, w: &Rc<World>) -> BF {
    let a = |i| ChA { i, w: w.clone(), _pin: Default::default(), addr: Cell::new(0) };
    let r = |i| ChR(a(i));
    match op {
        0 => Box::pin(Map(join(std::array::from_fn::<_, N, _>(a)), |v: [Tok; N]| Res::All(v.into_iter().collect()))),
        1 => Box::pin(Map(race(std::array::from_fn::<_, N, _>(a)), Res::One)),
        2 => Box::pin(Map(try_join(std::array::from_fn::<_, N, _>(r)), |x: Result<[Tok; N], Tok>| match x {
            Ok(v) => Res::OkAll(v.into_iter().collect()),
            Err(e) => Res::Err(e),
        })),
        _ => Box::pin(Map(race_ok(std::array::from_fn::<_, N, _>(r)), |x: Result<Tok, [Tok; N]>| match x {
            Ok(t) => Res::Ok(t),
            Err(v) => Res::ErrAll(v.into_iter().collect()),
        })),
    }
}
fn build(shape: usize, op: usize, n: usize, w: &Rc<World>) -> BF {
    match shape {
        0 => match n {
            0 => arr::<0>(op, w),
            1 => arr::<1>(op, w),
            2 => arr::<2>(op, w),
            3 => arr::<3>(op, w),
            4 => arr::<4>(op, w),
            7 => arr::<7>(op, w),
            63 => arr::<63>(op, w),
            64 => arr::<64>(op, w),
            65 => arr::<65>(op, w),
            130 => arr::<130>(op, w),
            200 => arr::<200>(op, w),
            256 => arr::<256>(op, w),
            _ => arr::<257>(op, w),
        },
        1 => {
            let a = |i| ChA { i, w: w.clone(), _pin: Default::default(), addr: Cell::new(0) };
            match op {
                0 => Box::pin(Map(join((0..n).map(a).collect::<Vec<_>>()), Res::All)),
                1 => Box::pin(Map(race((0..n).map(a).collect::<Vec<_>>()), Res::One)),
                2 => Box::pin(Map(try_join((0..n).map(|i| ChR(a(i))).collect::<Vec<_>>()), |x: Result<_, _>| match x {
                    Ok(v) => Res::OkAll(v),
                    Err(e) => Res::Err(e),
                })),
                _ => Box::pin(Map(race_ok((0..n).map(|i| ChR(a(i))).collect::<Vec<_>>()), |x: Result<_, _>| match x {
                    Ok(t) => Res::Ok(t),
                    Err(v) => Res::ErrAll(v),
                })),
            }
        }
        _ => match n {
            0 => Box::pin(Map(join(()), |()| Res::All(vec![]))),
            1 => tuple_case!(op, w; 0 a0),
            2 => tuple_case!(op, w; 0 a0 1 a1),
            3 => tuple_case!(op, w; 0 a0 1 a1 2 a2),
            4 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3),
            5 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4),
            6 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5),
            7 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6),
            8 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6 7 a7),
            9 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6 7 a7 8 a8),
            10 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6 7 a7 8 a8 9 a9),
            11 => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6 7 a7 8 a8 9 a9 10 a10),
            _ => tuple_case!(op, w; 0 a0 1 a1 2 a2 3 a3 4 a4 5 a5 6 a6 7 a7 8 a8 9 a9 10 a10 11 a11),
        },
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    Join,
    Early,
    Wake,
    Drop,
}
pub fn c01(s: &mut Src) -> Result<(), String> {
    run(s, P::Join)
}
pub fn c02(s: &mut Src) -> Result<(), String> {
    run(s, P::Early)
}
pub fn c03(s: &mut Src) -> Result<(), String> {
    run(s, P::Wake)
}
pub fn c04(s: &mut Src) -> Result<(), String> {
    run(s, P::Drop)
}

fn run(s: &mut Src, prop: P) -> Result<(), String> {
    let small = s.size == 0;
    let shape = s.pick(3);
    let op = match prop {
        P::Join => 0,
        P::Early => 1 + s.pick(3),
        _ => s.pick(4),
    };
    let n = if small {
        [2, 1, 0, 3][s.pick(4)]
    } else {
        match shape {
            0 => [3, 0, 1, 2, 4, 7, 63, 64, 65, 130, 200, 256, 257][s.pick(13)],
            1 => match s.pick(4) {
                0..=2 => s.pick(9),
                _ => [60, 63, 64, 65, 128, 129, 200, 255, 256, 257, 300][s.pick(11)],
            },
            _ => s.pick(13),
        }
    };
    let n = if shape == 2 && n == 0 && op != 0 { 1 } else { n };
    let opn = ["join", "race", "try_join", "race_ok"][op];
    s.t(format!("{opn} of {} {n} children", ["an array of", "a vector of", "a tuple of"][shape]));
    let w: Rc<World> = Default::default();
    for _ in 0..n {
        w.ch.borrow_mut().push(ChSt { since_child: true, since_poll: true, ..Default::default() });
    }
    let parents: Vec<CW> = (0..2).map(|_| CW::new()).collect();
    let base: Vec<usize> = parents.iter().map(|p| std::sync::Arc::strong_count(&p.c)).collect();
    let node: web_sys::Node = web_sys::DocumentFragment::new().unwrap().into();
    let mut fut = Box::pin(ContainerNodeFuture::new_root(build(shape, op, n, &w), node));
    let mut cur_parent: Option<usize> = None;
    let mut live_wake = false; // an uncompleted child was woken since the last poll began
    let mut any_wake = false;
    let mut done = false;
    let mut returned: Vec<Tok> = vec![];
    let steps = s.steps(6, [0, 15, 40, 80][s.size]) + 1;
    // how many children become ready in one poll
    let eager = s.pick(3);
    for _ in 0..steps {
        let act = if cur_parent.is_none() { 0 } else { s.pick(6) };
        match act {
            0 | 1 => {
                let p = s.pick(2);
                // script this poll
                {
                    let mut c = w.ch.borrow_mut();
                    for i in 0..n {
                        // only owed children can act
                        if !c[i].since_poll || c[i].completed {
                            continue;
                        }
                        c[i].ready = match eager {
                            0 => s.flag(),
                            1 => s.pick(8) == 1,
                            _ => s.pick(8) != 0,
                        };
                        if op >= 2 && c[i].ready {
                            // mostly the non-deciding outcome
                            let decides = s.rare(if n > 10 { 40 } else { 4 });
                            c[i].ok = (op == 2) != decides;
                        }
                        if op == 1 && n > 1 && c[i].ready && !small {
                            c[i].ready = s.rare(3);
                        }
                        c[i].wake_self = if s.rare(4) { 1 + s.pick(2) } else { 0 };
                        c[i].wake_other = if s.rare(4) { Some(s.pick(n)) } else { None };
                    }
                }
                let first = cur_parent.is_none();
                let pre: Vec<(bool, bool, bool)> = w.ch.borrow_mut().iter_mut().map(|c| {
                    let r = (c.since_child && !c.completed, c.since_poll && !c.completed, c.completed);
                    c.since_poll = false;
                    r
                }).collect();
                for q in &parents {
                    q.take();
                }
                w.order.borrow_mut().clear();
                w.in_poll.set(true);
                cur_parent = Some(p);
                let r = fut.as_mut().poll(&mut Context::from_waker(&parents[p].w));
                w.in_poll.set(false);
                let order = w.order.borrow().clone();
                let completed_now: Vec<usize> = (0..n).filter(|i| w.ch.borrow()[*i].completed && !pre[*i].2).collect();
                s.t(format!("poll with task {p}: polled children {order:?}, completed {completed_now:?} -> {}", if r.is_ready() { "ready" } else { "pending" }));
                if prop == P::Wake || prop == P::Drop {
                    if let Some(b) = w.bad.borrow().clone() {
                        return Err(b);
                    }
                }
                let decider = completed_now.iter().copied().find(|i| {
                    let c = w.ch.borrow();
                    match op {
                        0 => false,
                        1 => true,
                        2 => !c[*i].ok,
                        _ => c[*i].ok,
                    }
                });
                let all_done = w.ch.borrow().iter().all(|c| c.completed);
                if prop == P::Wake {
                    let mut seen = vec![0; n];
                    for i in &order {
                        seen[*i] += 1;
                        ensure!(seen[*i] == 1, "child {i} polled twice in one poll");
                        ensure!(pre[*i].1, "child {i} polled although it was not woken");
                    }
                    if decider.is_none() {
                        for i in 0..n {
                            ensure!(!(pre[i].0) || seen[i] == 1, "child {i} {} but was not polled", if first { "is new" } else { "was woken" });
                        }
                        if !first && !order.is_empty() {
                            s.hit("partial poll");
                        }
                    }
                }
                match r {
                    Poll::Pending => {
                        if (prop == P::Join && op == 0) || prop == P::Early {
                            ensure!(decider.is_none(), "{opn} stays pending although child {} decided", decider.unwrap());
                            ensure!(op == 1 || !all_done, "{opn} stays pending although all children completed");
                        }
                        live_wake = w.ch.borrow().iter().any(|c| c.since_poll && !c.completed);
                        any_wake = w.ch.borrow().iter().any(|c| c.since_poll);
                    }
                    Poll::Ready(res) => {
                        done = true;
                        let check = (prop == P::Join) || prop == P::Early;
                        let (kind, toks) = match res {
                            Res::All(v) => (0, v),
                            Res::One(t) => (1, vec![t]),
                            Res::OkAll(v) => (2, v),
                            Res::Err(t) => (3, vec![t]),
                            Res::Ok(t) => (4, vec![t]),
                            Res::ErrAll(v) => (5, v),
                        };
                        let ids: Vec<usize> = toks.iter().map(|t| t.i).collect();
                        s.t(format!("result: {} {ids:?}", ["all", "one", "all ok", "error", "ok", "all errors"][kind]));
                        if check {
                            match (decider, kind) {
                                (Some(d), 1 | 3 | 4) => {
                                    ensure!(ids == vec![d] && toks[0].i == d, "{opn} returned the output of child {} instead of child {d}", ids[0]);
                                    ensure!(order.last() == Some(&d), "{opn} polled further children after child {d} decided");
                                    s.hit("early decision");
                                }
                                (Some(d), _) => return Err(format!("{opn} ignored the decision of child {d}")),
                                (None, 0 | 2 | 5) => {
                                    ensure!(all_done, "{opn} finished before all children completed");
                                    ensure!(ids == (0..n).collect::<Vec<_>>(), "{opn} result has outputs of children {ids:?} in its positions");
                                    s.hit("combined result");
                                }
                                (None, _) => return Err(format!("{opn} returned an early result although no child decided")),
                            }
                        }
                        returned.extend(toks);
                        let combined = matches!(kind, 0 | 2 | 5);
                        if prop == P::Drop && combined && s.flag() {
                            // poll again
                            w.in_poll.set(true);
                            w.order.borrow_mut().clear();
                            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&parents[p].w))));
                            w.in_poll.set(false);
                            s.t("poll again after completion");
                            if n > 0 {
                                if let Ok(Poll::Ready(_)) = r {
                                    return Err("polling again after completion produced a second result".into());
                                }
                                ensure!(w.order.borrow().is_empty(), "polling after completion polled a child again");
                            }
                            drop(r);
                        }
                    }
                }
            }
            2 | 3 | 4 => {
                if n == 0 {
                    continue;
                }
                let i = s.pick(n);
                let k = s.pick(4);
                let c = s.flag();
                let comp = w.ch.borrow()[i].completed;
                let before = parents[cur_parent.unwrap()].n();
                if w.wake(i, k, c) {
                    s.t(format!("wake child {i}{}", if comp { " (already completed)" } else { "" }));
                    any_wake = true;
                    if !comp {
                        live_wake = true;
                        if before == 1 {
                            s.hit("coalesced wake");
                        }
                    }
                }
            }
            _ => {
                // drop stored waker clones of a child
                if n > 0 {
                    let i = s.pick(n);
                    let v = std::mem::take(&mut w.ch.borrow_mut()[i].wakers);
                    drop(v);
                    s.t(format!("drop the wakers of child {i}"));
                }
            }
        }
        if done {
            break;
        }
        if prop == P::Wake {
            if let Some(p) = cur_parent {
                let x = parents[p].n();
                ensure!(x <= 1, "the task was woken {x} times for wake-ups between two polls");
                ensure!(!live_wake || x == 1, "a child was woken but the task that polls the combinator was not");
                ensure!(any_wake || x == 0, "the task was woken although no child was woken");
                ensure!(parents[1 - p].n() == 0, "a task that no longer polls the combinator was woken");
            }
        }
    }
    // end: drop everything in some order; late wakes stay harmless
    let late: Vec<Waker> = w.ch.borrow_mut().iter_mut().flat_map(|c| std::mem::take(&mut c.wakers)).collect();
    let keep = s.flag();
    let hold = if keep { late } else { drop(late); vec![] };
    s.t(if done { "drop finished combinator" } else { "drop unfinished combinator" });
    drop(fut);
    if !done && w.ch.borrow().iter().any(|c| c.token_made) {
        s.hit("cancelled with stored outputs");
    }
    if prop == P::Drop {
        for (i, c) in w.ch.borrow().iter().enumerate() {
            ensure!(c.dropped == 1, "child {i} dropped {} times", c.dropped);
            let ret = returned.iter().any(|t| t.i == i);
            let want = usize::from(c.token_made && !ret);
            ensure!(c.token_dropped == want, "output of child {i} dropped {} times after the combinator was dropped, expected {want}", c.token_dropped);
        }
        for x in &hold {
            x.wake_by_ref();
            let c = x.clone();
            c.wake();
        }
        if !hold.is_empty() {
            s.hit("late wakers");
        }
    }
    drop(returned);
    drop(hold);
    if prop == P::Drop {
        for (i, c) in w.ch.borrow().iter().enumerate() {
            ensure!(c.token_dropped == usize::from(c.token_made), "output of child {i} dropped {} times in all", c.token_dropped);
        }
        for (p, b) in parents.iter().zip(base) {
            let k = std::sync::Arc::strong_count(&p.c);
            ensure!(k == b, "{} clones of the task waker are still alive after the combinator and its wakers are gone", k as i64 - b as i64);
        }
    }
    Ok(())
}
