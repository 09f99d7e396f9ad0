//! R01/R02: reactive cells against a list-of-subscriptions model.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use async_ui_internal_utils::reactive_cell::ReactiveCell;
use async_ui_internal_utils::wakers_arena::{WakerSlot, WakersArena, WakersSublist};
use futures_core::Stream;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

struct Sub<'a> {
    id: usize,
    cell: usize,
    fut: Pin<Box<dyn StreamFut + 'a>>,
    waker: Option<usize>,
    polled: bool,
    changed: bool,
}
trait StreamFut {
    fn poll_either(self: Pin<&mut Self>, cx: &mut Context<'_>, as_stream: bool) -> Poll<()>;
}
impl<T: Stream<Item = ()> + Future<Output = ()>> StreamFut for T {
    fn poll_either(self: Pin<&mut Self>, cx: &mut Context<'_>, as_stream: bool) -> Poll<()> {
        if as_stream {
            self.poll_next(cx).map(|x| x.expect("stream ended"))
        } else {
            self.poll(cx)
        }
    }
}
struct Each<'a> {
    id: usize,
    cell: usize,
    fut: Pin<Box<dyn Future<Output = ()> + 'a>>,
    calls: Rc<Cell<usize>>,
    seen: Rc<Cell<i64>>,
    started: bool,
    changed: bool,
}

pub fn r01(s: &mut Src) -> Result<(), String> {
    if s.rare(4) {
        return arena(s);
    }
    cells(s, true)
}
pub fn r02(s: &mut Src) -> Result<(), String> {
    cells(s, false)
}

fn cells(s: &mut Src, wakes: bool) -> Result<(), String> {
    let nc = if s.size == 0 { 1 } else { 1 + s.pick(3) };
    let cells: Vec<ReactiveCell<i64>> = (0..nc).map(|_| ReactiveCell::new(0)).collect();
    let mut subs: Vec<Sub> = vec![];
    let mut each: Vec<Each> = vec![];
    let mut versions = vec![0i64; nc];
    let pool: Vec<CW> = (0..if s.size == 0 { 2 } else { 24 }).map(|_| CW::new()).collect();
    let n = s.steps(6, [0, 30, 120, 400][s.size]);
    let mut next_id = 0;
    // runs with many live subscriptions make the arena grow
    let bias = s.pick(4);
    for _ in 0..n {
        let k = if bias == 3 && s.flag() { 1 } else { s.pick(7) };
        match k {
            0 => {
                // end a mutable borrow, check wakes exactly
                let c = s.pick(nc);
                if s.size > 0 && s.rare(12) {
                    // counters must not wrap around unnoticed
                    let n = [1usize, 2, 7, 15, 126, 127, 254, 255, 65535][s.pick(9)];
                    s.t(format!("mutably borrow cell {c} {n} more times"));
                    for _ in 0..n {
                        *cells[c].borrow_mut() += 1;
                        versions[c] += 1;
                    }
                    s.hit("many changes between polls");
                }
                for p in &pool {
                    p.take();
                }
                let mut want = vec![0usize; pool.len()];
                for x in &subs {
                    if x.cell == c {
                        if let Some(w) = x.waker {
                            want[w] += 1;
                        }
                    }
                }
                let has_each = each.iter().any(|e| e.cell == c);
                {
                    if s.flag() {
                        let mut b = cells[c].borrow_mut();
                        ensure!(pool.iter().all(|p| p.n() == 0), "a waker was woken before the mutable borrow ended");
                        *b += 1;
                    } else {
                        *cells[c].try_borrow_mut().map_err(|_| "cell still borrowed")? += 1;
                    }
                }
                versions[c] += 1;
                s.t(format!("mutably borrow cell {c}"));
                if wakes && !has_each {
                    for (i, p) in pool.iter().enumerate() {
                        ensure!(p.n() == want[i], "after mutably borrowing cell {c}: waker {i} woken {} times, expected {}", p.n(), want[i]);
                    }
                }
                if want.iter().sum::<usize>() > 1 {
                    s.hit("wake of several subscriptions");
                }
                for x in subs.iter_mut().filter(|x| x.cell == c) {
                    x.changed = true;
                }
                for x in each.iter_mut().filter(|x| x.cell == c) {
                    x.changed = true;
                }
            }
            1 | 2 => {
                let c = s.pick(nc);
                subs.push(Sub { id: next_id, cell: c, fut: Box::pin(cells[c].until_change()), waker: None, polled: false, changed: false });
                s.t(format!("subscription {next_id} := cell {c}.until_change()"));
                next_id += 1;
            }
            3 | 4 => {
                if subs.is_empty() {
                    continue;
                }
                let i = s.pick(subs.len());
                let w = s.pick(pool.len());
                let as_stream = s.flag();
                let x = &mut subs[i];
                let r = x.fut.as_mut().poll_either(&mut Context::from_waker(&pool[w].w), as_stream);
                s.t(format!("poll subscription {} with waker {w} -> {}", x.id, if r.is_ready() { "ready" } else { "pending" }));
                if !wakes {
                    let want = x.polled && x.changed;
                    ensure!(r.is_ready() == want, "subscription {} polled {}, expected {}", x.id, if r.is_ready() { "ready" } else { "pending" }, if want { "ready" } else { "pending" });
                    if want {
                        s.hit("change reported");
                    }
                }
                x.polled = true;
                x.changed = false;
                x.waker = Some(w);
            }
            5 => {
                if subs.is_empty() {
                    continue;
                }
                let i = s.pick(subs.len());
                let x = subs.remove(i);
                s.t(format!("drop subscription {}", x.id));
                if !subs.is_empty() {
                    s.hit("drop among several");
                }
            }
            _ => {
                // for_each futures
                if each.is_empty() || s.rare(4) {
                    let c = s.pick(nc);
                    let calls = Rc::new(Cell::new(0));
                    let seen = Rc::new(Cell::new(-1));
                    let (a, b) = (calls.clone(), seen.clone());
                    each.push(Each {
                        id: next_id,
                        cell: c,
                        fut: Box::pin(cells[c].for_each(move |v| {
                            a.set(a.get() + 1);
                            b.set(*v);
                        })),
                        calls,
                        seen,
                        started: false,
                        changed: false,
                    });
                    s.t(format!("for-each {next_id} := cell {c}.for_each(..)"));
                    next_id += 1;
                } else {
                    let i = s.pick(each.len());
                    if s.rare(6) {
                        let e = each.remove(i);
                        s.t(format!("drop for-each {}", e.id));
                        continue;
                    }
                    let w = s.pick(pool.len());
                    let e = &mut each[i];
                    let before = e.calls.get();
                    let r = e.fut.as_mut().poll(&mut Context::from_waker(&pool[w].w));
                    let d = e.calls.get() - before;
                    s.t(format!("poll for-each {} -> {d} calls", e.id));
                    ensure!(r.is_pending(), "for-each finished");
                    let want = usize::from(!e.started || e.changed);
                    if !wakes {
                        ensure!(d == want, "for-each {} called its function {d} times in one poll, expected {want}", e.id);
                        ensure!(want == 0 || e.seen.get() == versions[e.cell], "for-each {} saw stale data", e.id);
                    }
                    e.started = true;
                    e.changed = false;
                }
            }
        }
    }
    Ok(())
}

/// Direct use of the public waker arena: several sublists in one arena.
fn arena(s: &mut Src) -> Result<(), String> {
    let mut a = WakersArena::new();
    struct L {
        id: usize,
        h: WakersSublist,
        v: Vec<(WakerSlot, Option<usize>)>,
    }
    let mut lists: Vec<L> = vec![];
    let pool: Vec<CW> = (0..8).map(|_| CW::new()).collect();
    let n = s.steps(6, [0, 40, 150, 300][s.size]);
    let mut next = 0;
    for _ in 0..n {
        match s.pick(6) {
            0 => {
                lists.push(L { id: next, h: a.add_sublist(), v: vec![] });
                s.t(format!("list {next} := add_sublist"));
                next += 1;
            }
            1 | 2 if !lists.is_empty() => {
                let i = s.pick(lists.len());
                let slot = a.add(&lists[i].h);
                lists[i].v.push((slot, None));
                s.t(format!("add to list {}", lists[i].id));
            }
            3 if !lists.is_empty() => {
                let i = s.pick(lists.len());
                if lists[i].v.is_empty() {
                    let r = a.remove_sublist_if_empty(&lists[i].h);
                    s.t(format!("remove empty list {}", lists[i].id));
                    ensure!(r, "empty sublist reported as not empty");
                    s.hit("sublist reclaimed");
                    lists.remove(i);
                } else {
                    let r = a.remove_sublist_if_empty(&lists[i].h);
                    ensure!(!r, "non-empty sublist removed");
                }
            }
            4 if !lists.is_empty() => {
                let i = s.pick(lists.len());
                if !lists[i].v.is_empty() {
                    let j = s.pick(lists[i].v.len());
                    let (h, _) = lists[i].v.remove(j);
                    a.remove(&h);
                    s.t(format!("remove #{j} of list {}", lists[i].id));
                    s.hit("slot reclaimed");
                }
            }
            _ if !lists.is_empty() => {
                let i = s.pick(lists.len());
                if !lists[i].v.is_empty() {
                    let j = s.pick(lists[i].v.len());
                    let w = s.pick(pool.len());
                    a.update(&lists[i].v[j].0, &pool[w].w);
                    lists[i].v[j].1 = Some(w);
                    s.t(format!("update #{j} of list {} to waker {w}", lists[i].id));
                }
            }
            _ => {}
        }
        for l in &lists {
            for p in &pool {
                p.take();
            }
            let mut k = 0;
            for w in a.iter(&l.h) {
                w.wake_by_ref();
                k += 1;
                ensure!(k <= l.v.len(), "list {} iterates over more wakers than were added", l.id);
            }
            ensure!(k == l.v.len(), "list {} iterates over {k} wakers, {} were added", l.id, l.v.len());
            let mut want = vec![0; pool.len()];
            for x in &l.v {
                if let Some(w) = x.1 {
                    want[w] += 1;
                }
            }
            for (i, p) in pool.iter().enumerate() {
                ensure!(p.n() == want[i], "waking list {}: waker {i} woken {} times, expected {}", l.id, p.n(), want[i]);
            }
        }
    }
    Ok(())
}
