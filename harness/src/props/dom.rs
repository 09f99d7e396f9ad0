//! D01-D03: rendering into the document, and the root executor.
//!
//! Ground truth for D01/D02 is the composition tree itself: every node future reports when it
//! is first polled and when it is dropped, so the expected document is the in-order walk of the
//! tree over the nodes whose future is alive.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use async_ui_web::components::DynamicSlot;
use async_ui_web::lists::DynamicList;
use async_ui_web_core::combinators::{join, race, race_ok, try_join};
use async_ui_web_core::{executor, ContainerNodeFuture};
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::{Rc, Weak};
use std::task::{Context, Poll, Waker};
use web_sys::fake;

type BF = Pin<Box<dyn Future<Output = ()>>>;

/// One place of the composition.
struct Place {
    /// Some(label) if this place renders a node.
    label: Option<String>,
    node: RefCell<Option<web_sys::Node>>,
    live: Cell<bool>,
    /// false while this is a list that is not being rendered
    shown: Cell<bool>,
    kids: RefCell<Vec<Rc<Place>>>,
}
impl Place {
    fn group() -> Rc<Place> {
        Rc::new(Place { label: None, node: RefCell::new(None), live: Cell::new(false), shown: Cell::new(true), kids: RefCell::new(vec![]) })
    }
    fn want(&self, out: &mut Vec<String>) {
        match &self.label {
            None => {
                if !self.shown.get() {
                    return;
                }
                for k in self.kids.borrow().iter() {
                    k.want(out)
                }
            }
            Some(l) => {
                if self.live.get() {
                    let mut v = vec![];
                    for k in self.kids.borrow().iter() {
                        k.want(&mut v)
                    }
                    out.push(format!("{l}({})", v.join(" ")));
                }
            }
        }
    }
}

#[derive(Default)]
struct Gate {
    count: Cell<usize>,
    seen: Cell<usize>,
    wakers: RefCell<Vec<Waker>>,
    name: usize,
}
impl Gate {
    fn fire(&self) {
        self.count.set(self.count.get() + 1);
        for w in self.wakers.borrow_mut().drain(..) {
            w.wake();
        }
    }
    fn wait(self: &Rc<Self>, w: &Rc<World>) -> Wait {
        Wait { g: self.clone(), w: w.clone(), at: None }
    }
}
struct Wait {
    g: Rc<Gate>,
    w: Rc<World>,
    at: Option<usize>,
}
impl Future for Wait {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.w.check_now();
        let c = self.g.count.get();
        let at = *self.at.get_or_insert(c);
        if c > at {
            return Poll::Ready(());
        }
        self.g.wakers.borrow_mut().push(cx.waker().clone());
        Poll::Pending
    }
}

/// Wraps the future of one node and keeps the place's record.
struct Track<F> {
    f: Option<F>,
    place: Rc<Place>,
}
impl<F: Future<Output = ()>> Future for Track<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let t = unsafe { self.get_unchecked_mut() };
        t.place.live.set(true);
        t.place.shown.set(true);
        unsafe { Pin::new_unchecked(t.f.as_mut().unwrap()) }.poll(cx)
    }
}
impl<F> Drop for Track<F> {
    fn drop(&mut self) {
        self.place.live.set(false);
        self.place.shown.set(self.place.label.is_some());
        // then the wrapped future is dropped, which removes the node
    }
}

struct World {
    gates: RefCell<Vec<Rc<Gate>>>,
    roots: RefCell<Vec<Root>>,
    bad: RefCell<Option<String>>,
    labels: Cell<usize>,
    lists: RefCell<Vec<Weak<ListSt>>>,
    slots: RefCell<Vec<Weak<SlotSt>>>,
    /// false while content removed from a list may not be gone yet
    strict: Cell<bool>,
    drops: Cell<usize>,
}
struct Root {
    node: web_sys::Node,
    place: Rc<Place>,
    before: String,
    after: String,
}
struct ListSt {
    dl: DynamicList<'static, usize, BF>,
    place: Rc<Place>,
    keys: RefCell<Vec<(usize, Rc<Place>)>>,
    /// content of removed items, whose nodes go when the list is next polled
    gone: RefCell<Vec<Rc<Place>>>,
}
impl ListSt {
    fn sync(&self) {
        *self.place.kids.borrow_mut() = self.keys.borrow().iter().map(|k| k.1.clone()).collect();
    }
}
struct SlotSt {
    sl: DynamicSlot<BF>,
    place: Rc<Place>,
}
impl World {
    fn check_now(&self) {
        if self.strict.get() && self.bad.borrow().is_none() {
            if let Err(e) = self.check() {
                *self.bad.borrow_mut() = Some(format!("during a poll: {e}"));
            }
        }
    }
    fn check(&self) -> Result<(), String> {
        for r in self.roots.borrow().iter() {
            let mut v = vec![];
            r.place.want(&mut v);
            let want = format!("{} {} {}", r.before, v.join(" "), r.after).split_whitespace().collect::<Vec<_>>().join(" ");
            let got = fake::show_children(&r.node);
            ensure!(got == want, "document shows [{got}], composition is [{want}]");
        }
        Ok(())
    }
}

fn element(w: &World, place: &mut Option<Rc<Place>>) -> web_sys::Node {
    let l = w.labels.get();
    w.labels.set(l + 1);
    let name = format!("e{l}");
    let n: web_sys::Node = web_sys::window().unwrap().document().unwrap().create_element(&name).unwrap().into();
    *place = Some(Rc::new(Place {
        label: Some(name),
        node: RefCell::new(Some(n.clone())),
        live: Cell::new(false),
        shown: Cell::new(true),
        kids: RefCell::new(vec![]),
    }));
    n
}

fn gate(s: &mut Src, w: &Rc<World>) -> Rc<Gate> {
    let mut g = w.gates.borrow_mut();
    if !g.is_empty() && s.rare(3) {
        let i = s.pick(g.len());
        return g[i].clone();
    }
    let x = Rc::new(Gate { name: g.len(), ..Default::default() });
    g.push(x.clone());
    x
}
fn res(b: bool, f: BF) -> Pin<Box<dyn Future<Output = Result<(), ()>>>> {
    Box::pin(async move {
        f.await;
        if b {
            Ok(())
        } else {
            Err(())
        }
    })
}

/// Build a random composition; returns its place and its future.
fn build(s: &mut Src, w: &Rc<World>, depth: usize, desc: &mut String) -> (Rc<Place>, BF) {
    let k = if depth == 0 { s.pick(3) } else { s.pick(12) };
    match k {
        0 => {
            let mut p = None;
            let n = element(w, &mut p);
            let p = p.unwrap();
            desc.push_str(p.label.as_ref().unwrap());
            if s.rare(3) {
                // a node whose content finishes
                let g = gate(s, w);
                desc.push_str(&format!("[ends g{}]", g.name));
                (p.clone(), Box::pin(Track { f: Some(ContainerNodeFuture::new(g.wait(w), n)), place: p }))
            } else {
                (p.clone(), Box::pin(Track { f: Some(ContainerNodeFuture::new(pending::<()>(), n)), place: p }))
            }
        }
        1 => {
            let g = gate(s, w);
            desc.push_str(&format!("wait(g{})", g.name));
            (Place::group(), Box::pin(g.wait(w)))
        }
        2 => {
            desc.push_str("late");
            let g = gate(s, w);
            desc.push_str(&format!("(g{} ", g.name));
            let mut p = None;
            let n = element(w, &mut p);
            let p = p.unwrap();
            desc.push_str(p.label.as_ref().unwrap());
            desc.push(')');
            let wt = g.wait(w);
            let t = Track { f: Some(ContainerNodeFuture::new(pending::<()>(), n)), place: p.clone() };
            (
                p,
                Box::pin(async move {
                    wt.await;
                    t.await;
                }),
            )
        }
        3 => {
            let mut p = None;
            let n = element(w, &mut p);
            let p = p.unwrap();
            desc.push_str(p.label.as_ref().unwrap());
            desc.push('(');
            let (c, f) = build(s, w, depth - 1, desc);
            desc.push(')');
            p.kids.borrow_mut().push(c);
            (p.clone(), Box::pin(Track { f: Some(ContainerNodeFuture::new(f, n)), place: p }))
        }
        4 | 5 | 6 => {
            let op = s.pick(4);
            let n = s.pick(if s.size > 1 { 5 } else { 4 });
            let shape = s.pick(3);
            desc.push_str(["join", "race", "try_join", "race_ok"][op]);
            desc.push_str(["{", "[", "("][shape]);
            let p = Place::group();
            let mut fs = vec![];
            for _ in 0..n {
                let (c, f) = build(s, w, depth - 1, desc);
                desc.push(' ');
                p.kids.borrow_mut().push(c);
                fs.push(f);
            }
            desc.push(')');
            let ok = s.flag();
            let mut f = combine(op, shape, fs, ok);
            let mut p = p;
            if s.size > 1 && s.rare(6) {
                // many levels down
                let deep = 1 + s.pick(40);
                desc.push_str(&format!("*{deep}"));
                for i in 0..deep {
                    let outer = Place::group();
                    if i == deep / 2 && s.flag() {
                        let (c, g) = build(s, w, 0, desc);
                        outer.kids.borrow_mut().push(c);
                        outer.kids.borrow_mut().push(p);
                        f = combine(0, 1, vec![g, f], true);
                    } else {
                        outer.kids.borrow_mut().push(p);
                        f = combine(0, 1, vec![f], true);
                    }
                    p = outer;
                }
            }
            (p, f)
        }
        7 => {
            // parts shown one after another, each until its gate fires
            desc.push_str("phases(");
            let p = Place::group();
            let mut parts = vec![];
            for _ in 0..1 + s.pick(2) {
                let g = gate(s, w);
                let (c, f) = build(s, w, depth - 1, desc);
                desc.push_str(&format!(" until g{}; ", g.name));
                p.kids.borrow_mut().push(c);
                parts.push((g.wait(w), f));
            }
            desc.push(')');
            (
                p,
                Box::pin(async move {
                    for (g, f) in parts {
                        // the part is listed before or after its end signal
                        race((f, g)).await;
                    }
                }),
            )
        }
        8 => {
            // as above, but switched by a future that adds no position
            desc.push_str("switch(");
            let p = Place::group();
            let mut parts = std::collections::VecDeque::new();
            for _ in 0..1 + s.pick(2) {
                let g = gate(s, w);
                let (c, f) = build(s, w, depth - 1, desc);
                desc.push_str(&format!(" until g{}; ", g.name));
                p.kids.borrow_mut().push(c);
                parts.push_back((g.wait(w), f));
            }
            desc.push(')');
            let mut cur: Option<(Wait, BF)> = None;
            (
                p,
                Box::pin(std::future::poll_fn(move |cx| loop {
                    if cur.is_none() {
                        cur = parts.pop_front();
                    }
                    match &mut cur {
                        None => return Poll::Ready(()),
                        Some((g, f)) => {
                            if Pin::new(g).poll(cx).is_ready() {
                                cur = None;
                            } else if f.as_mut().poll(cx).is_pending() {
                                return Poll::Pending;
                            } else {
                                cur = None;
                            }
                        }
                    }
                })),
            )
        }
        9 => {
            // built early, polled late or never
            desc.push_str("hold(");
            let g = gate(s, w);
            let (a, fa) = build(s, w, depth - 1, desc);
            desc.push_str(&format!(" while g{}: ", g.name));
            let (b, fb) = build(s, w, depth - 1, desc);
            desc.push(')');
            let keep = s.flag();
            let p = Place::group();
            p.kids.borrow_mut().push(b);
            p.kids.borrow_mut().push(a);
            let mut gw = g.wait(w);
            let mut a = Some(fa);
            let mut b = Some(fb);
            let mut open = false;
            (
                p,
                Box::pin(std::future::poll_fn(move |cx| {
                    if !open && Pin::new(&mut gw).poll(cx).is_ready() {
                        open = true;
                        if keep {
                            b = None;
                        } else {
                            // dropped without ever having been polled, next to something shown
                            a = None;
                        }
                    }
                    if let Some(f) = &mut b {
                        if f.as_mut().poll(cx).is_ready() {
                            b = None;
                            if !open {
                                return Poll::Ready(());
                            }
                        }
                    }
                    if open && b.is_none() {
                        if let Some(f) = &mut a {
                            return f.as_mut().poll(cx);
                        }
                        return Poll::Ready(());
                    }
                    Poll::Pending
                })),
            )
        }
        10 => {
            let p = Place::group();
            let l = Rc::new(ListSt { dl: DynamicList::new(), place: p.clone(), keys: RefCell::new(vec![]), gone: RefCell::new(vec![]) });
            desc.push_str("list(");
            for _ in 0..s.pick(3) {
                list_op(s, w, &l, depth - 1, desc);
            }
            desc.push(')');
            w.lists.borrow_mut().push(Rc::downgrade(&l));
            p.shown.set(false);
            (p.clone(), Box::pin(Track { f: Some(async move { l.dl.render().await }), place: p }))
        }
        _ => {
            let p = Place::group();
            let l = Rc::new(SlotSt { sl: DynamicSlot::new(), place: p.clone() });
            desc.push_str("slot(");
            slot_op(s, w, &l, depth - 1, desc);
            desc.push(')');
            w.slots.borrow_mut().push(Rc::downgrade(&l));
            (p, Box::pin(async move { l.sl.render().await }))
        }
    }
}
fn slot_op(s: &mut Src, w: &Rc<World>, l: &Rc<SlotSt>, depth: usize, desc: &mut String) {
    if s.pick(4) == 3 {
        l.sl.clear_future();
        desc.push_str("clear");
    } else {
        let (c, f) = build(s, w, depth, desc);
        // the old content stays shown until the slot is polled, then only the new one is
        l.place.kids.borrow_mut().push(c);
        l.sl.set_future(f);
    }
}
fn list_op(s: &mut Src, w: &Rc<World>, l: &Rc<ListSt>, depth: usize, desc: &mut String) {
    let n = l.keys.borrow().len();
    let op = if n == 0 { 0 } else { s.pick(4) };
    match op {
        0 => {
            let key = w.labels.get();
            w.labels.set(key + 1);
            let at = s.pick(n + 1);
            let before = l.keys.borrow().get(at).map(|k| k.0);
            desc.push_str(&format!("+{key} before {before:?}: "));
            let (c, f) = build(s, w, depth, desc);
            desc.push(';');
            l.keys.borrow_mut().insert(at, (key, c));
            l.dl.insert(key, f, before.as_ref());
        }
        1 => {
            let i = s.pick(n);
            let (key, c) = l.keys.borrow_mut().remove(i);
            l.gone.borrow_mut().push(c);
            desc.push_str(&format!("-{key};"));
            w.strict.set(false);
            l.dl.remove(&key);
        }
        2 => {
            let (a, b) = (s.pick(n), s.pick(n));
            let (ka, kb) = (l.keys.borrow()[a].0, l.keys.borrow()[b].0);
            desc.push_str(&format!("swap {ka},{kb};"));
            l.keys.borrow_mut().swap(a, b);
            l.dl.swap(&ka, &kb);
        }
        _ => {
            let a = s.pick(n);
            let x = l.keys.borrow_mut().remove(a);
            let b = s.pick(n);
            let before = l.keys.borrow().get(b).map(|k| k.0);
            desc.push_str(&format!("move {} before {before:?};", x.0));
            let key = x.0;
            l.keys.borrow_mut().insert(b, x);
            l.dl.move_before(&key, before.as_ref());
        }
    }
    l.sync();
}
struct NoOut<F>(F);
impl<F: Future> Future for NoOut<F> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx).map(|_| ())
    }
}
fn combine(op: usize, shape: usize, fs: Vec<BF>, ok: bool) -> BF {
    fn unit<F: Future + 'static>(f: F) -> BF {
        Box::pin(NoOut(f))
    }
    if shape == 0 || fs.is_empty() {
        return match op {
            0 => unit(join(fs)),
            1 => unit(race(fs)),
            2 => unit(try_join(fs.into_iter().map(|f| res(ok, f)).collect::<Vec<_>>())),
            _ => unit(race_ok(fs.into_iter().map(|f| res(ok, f)).collect::<Vec<_>>())),
        };
    }
    macro_rules! all {
        ($n:literal $($v:ident)*) => {{
            if op < 2 {
                let a: [BF; $n] = fs.try_into().ok().unwrap();
                if shape == 1 {
                    if op == 0 { unit(join(a)) } else { unit(race(a)) }
                } else {
                    let [$($v,)*] = a;
                    if op == 0 { unit(join(($($v,)*))) } else { unit(race(($($v,)*))) }
                }
            } else {
                let a: [_; $n] = fs.into_iter().map(|f| res(ok, f)).collect::<Vec<_>>().try_into().ok().unwrap();
                if shape == 1 {
                    if op == 2 { unit(try_join(a)) } else { unit(race_ok(a)) }
                } else {
                    let [$($v,)*] = a;
                    if op == 2 { unit(try_join(($($v,)*))) } else { unit(race_ok(($($v,)*))) }
                }
            }
        }};
    }
    match fs.len() {
        1 => all!(1 a),
        2 => all!(2 a b),
        3 => all!(3 a b c),
        _ => all!(4 a b c d),
    }
}

struct App {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    task: Option<async_executor_task::Task>,
    cw: CW,
    started: bool,
    done: bool,
}
mod async_executor_task {
    /// The handle that mounting returns, whatever its concrete type.
    pub struct Task(pub Option<Box<dyn std::any::Any>>);
}

pub fn d01(s: &mut Src) -> Result<(), String> {
    tree(s, false)
}
pub fn d02(s: &mut Src) -> Result<(), String> {
    tree(s, true)
}

fn container(s: &mut Src) -> (web_sys::Node, String, String) {
    let doc = web_sys::window().unwrap().document().unwrap();
    let n: web_sys::Node = doc.create_element("root").unwrap().into();
    let mut before = String::new();
    if s.flag() {
        n.append_child(&doc.create_element("foreign").unwrap()).unwrap();
        before = "foreign()".into();
    }
    (n, before, String::new())
}

fn tree(s: &mut Src, drops: bool) -> Result<(), String> {
    let w = Rc::new(World {
        gates: Default::default(),
        roots: Default::default(),
        bad: Default::default(),
        labels: Cell::new(0),
        lists: Default::default(),
        slots: Default::default(),
        strict: Cell::new(true),
        drops: Cell::new(0),
    });
    let nroots = if s.size > 0 && s.rare(3) { 2 } else { 1 };
    let mut apps: Vec<App> = vec![];
    for i in 0..nroots {
        let (node, before, after) = container(s);
        let mut d = String::new();
        let depth = [1, 2, 3, 4][s.size.min(3)];
        let (p, f) = build(s, &w, depth, &mut d);
        let mounted = s.flag();
        s.t(format!("root {i}{}: {d}", if mounted { " (mounted)" } else { "" }));
        let mut app = App { fut: None, task: None, cw: CW::new(), started: false, done: false };
        if mounted {
            let t = async_ui_web::mount_at(f, node.clone());
            app.task = Some(async_executor_task::Task(Some(Box::new(t))));
        } else {
            app.fut = Some(Box::pin(ContainerNodeFuture::new_root(f, node.clone())));
        }
        w.roots.borrow_mut().push(Root { node, place: p, before, after });
        apps.push(app);
    }
    let n = s.steps(4, [0, 12, 25, 50][s.size]);
    let mut step = 0;
    loop {
        let last = step >= n;
        // let everything that is due run
        let settle = last || s.flag() || !w.strict.get();
        if settle {
            for _ in 0..200 {
                let mut quiet = true;
                for (i, a) in apps.iter_mut().enumerate() {
                    if let Some(f) = &mut a.fut {
                        if !a.done && (!a.started || a.cw.take() > 0) {
                            quiet = false;
                            a.started = true;
                            let mut cx = Context::from_waker(&a.cw.w);
                            if f.as_mut().poll(&mut cx).is_ready() {
                                a.done = true;
                                s.t(format!("root {i} finished"));
                            }
                            if w.strict.get() {
                                w.check()?;
                            }
                        }
                    }
                }
                if fake::fire_timer() {
                    quiet = false;
                }
                if quiet {
                    break;
                }
            }
            w.strict.set(true);
            for l in w.lists.borrow().iter().filter_map(|l| l.upgrade()) {
                fn any_live(p: &Rc<Place>) -> bool {
                    p.live.get() || p.kids.borrow().iter().any(any_live)
                }
                l.gone.borrow_mut().retain(any_live);
                if !l.gone.borrow().is_empty() {
                    // this list is not being polled any more, so its removed content stays
                    w.strict.set(false);
                }
            }
            if !w.strict.get() {
                break;
            }
            s.t("settled");
            w.check()?;
            let shown = w.roots.borrow().iter().map(|r| fake::show_children(&r.node)).collect::<Vec<_>>().join(" | ");
            s.t(format!("  shows {shown}"));
        }
        if let Some(e) = w.bad.borrow_mut().take() {
            return Err(e);
        }
        if last {
            break;
        }
        step += 1;
        let lists: Vec<_> = w.lists.borrow().iter().filter_map(|l| l.upgrade()).collect();
        let slots: Vec<_> = w.slots.borrow().iter().filter_map(|l| l.upgrade()).collect();
        let mut k = s.pick(8);
        if k == 6 && lists.is_empty() || k == 7 && slots.is_empty() {
            k = 0;
        }
        match k {
            0..=4 => {
                let g = w.gates.borrow();
                if g.is_empty() {
                    continue;
                }
                let i = s.pick(g.len());
                s.t(format!("fire g{i}"));
                s.hit("signals");
                g[i].fire();
            }
            5 => {
                if !drops || !s.flag() {
                    // a wake-up that nothing needs
                    for a in &mut apps {
                        a.cw.w.wake_by_ref();
                    }
                    continue;
                }
                let i = s.pick(apps.len());
                drop_root(s, &w, &mut apps, i)?;
            }
            6 => {
                let i = s.pick(lists.len());
                let mut d = String::new();
                list_op(s, &w, &lists[i], s.size.min(2), &mut d);
                s.hit("list operations");
                s.t(format!("list {i}: {d}"));
            }
            _ => {
                let i = s.pick(slots.len());
                let mut d = String::new();
                slot_op(s, &w, &slots[i], s.size.min(2), &mut d);
                s.hit("slot changes");
                s.t(format!("slot {i}: {d}"));
            }
        }
    }
    if drops {
        for i in 0..apps.len() {
            drop_root(s, &w, &mut apps, i)?;
        }
        // later use of the same thread is unaffected
        let doc = web_sys::window().unwrap().document().unwrap();
        let root: web_sys::Node = doc.create_element("root").unwrap().into();
        let (a, b): (web_sys::Node, web_sys::Node) = (doc.create_element("a").unwrap().into(), doc.create_element("b").unwrap().into());
        let g = Rc::new(Cell::new(false));
        let g2 = g.clone();
        let mut inner = Some(Box::pin(ContainerNodeFuture::new(pending::<()>(), a)));
        let first = std::future::poll_fn(move |cx| -> Poll<()> {
            if g2.get() {
                inner = None;
            }
            if let Some(i) = &mut inner {
                let _ = i.as_mut().poll(cx);
            }
            Poll::Pending
        });
        let mut f = Box::pin(ContainerNodeFuture::new_root(
            async move {
                // `join` of a vector never wakes on its own here, so poll both by hand each time
                let mut x = Box::pin(first);
                let mut y = Box::pin(ContainerNodeFuture::new(pending::<()>(), b));
                let mut j = join([
                    Box::pin(std::future::poll_fn(move |cx| {
                        cx.waker().wake_by_ref();
                        x.as_mut().poll(cx)
                    })) as BF,
                    Box::pin(std::future::poll_fn(move |cx| y.as_mut().poll(cx))) as BF,
                ]);
                let mut j = unsafe { Pin::new_unchecked(&mut j) };
                std::future::poll_fn(|cx| j.as_mut().poll(cx)).await;
            },
            root.clone(),
        ));
        let cw = CW::new();
        let mut cx = Context::from_waker(&cw.w);
        let _ = f.as_mut().poll(&mut cx);
        ensure!(fake::show_children(&root) == "a() b()", "a later render shows [{}] instead of [a() b()]", fake::show_children(&root));
        g.set(true);
        let _ = f.as_mut().poll(&mut cx);
        ensure!(fake::show_children(&root) == "b()", "a later drop leaves [{}] instead of [b()]", fake::show_children(&root));
        drop(f);
        ensure!(fake::show_children(&root).is_empty(), "a later unmount leaves [{}]", fake::show_children(&root));
    }
    // the rest of the application is dropped here, in any order
    if !drops {
        drop(apps);
    }
    Ok(())
}

fn drop_root(s: &mut Src, w: &Rc<World>, apps: &mut [App], i: usize) -> Result<(), String> {
    if apps[i].fut.is_none() && apps[i].task.is_none() {
        return Ok(());
    }
    s.t(format!("drop root {i}"));
    s.hit("unmounts");
    fn live(p: &Rc<Place>, inside: bool, out: &mut Vec<(web_sys::Node, String)>) {
        if p.label.is_some() && p.live.get() && inside {
            let n = p.node.borrow().clone().unwrap();
            let sh = fake::show(&n);
            out.push((n, sh));
        }
        let ins = p.label.is_some();
        for k in p.kids.borrow().iter() {
            live(k, inside || ins, out);
        }
    }
    let has_list = s.trace.iter().any(|t| t.contains("list("));
    // top-level elements of this root with their contents
    let mut tops: Vec<(web_sys::Node, String)> = vec![];
    let (node, before, after) = {
        let r = w.roots.borrow();
        for c in r[i].node.child_list() {
            if matches!(c.fake_kind(), web_sys::Kind::Element(_)) {
                let sh = fake::show(&c);
                tops.push((c, sh));
            }
        }
        (r[i].node.clone(), r[i].before.clone(), r[i].after.clone())
    };
    if !tops.is_empty() {
        s.hit("unmounts with content");
    }
    let others: Vec<String> = w.roots.borrow().iter().enumerate().filter(|x| x.0 != i).map(|x| fake::show_children(&x.1.node)).collect();
    let a = &mut apps[i];
    a.fut = None;
    if let Some(mut t) = a.task.take() {
        t.0 = None;
        for _ in 0..200 {
            if !fake::fire_timer() {
                break;
            }
        }
    } else {
        let now: Vec<String> = w.roots.borrow().iter().enumerate().filter(|x| x.0 != i).map(|x| fake::show_children(&x.1.node)).collect();
        ensure!(now == others, "dropping one root changed another from {others:?} to {now:?}");
    }
    let got = fake::show_children(&node);
    let want = format!("{before} {after}");
    ensure!(got == want.trim(), "after unmounting, the container shows [{got}], should show [{}]", want.trim());
    if !has_list {
        for (n, sh) in &tops {
            let now = fake::show(n);
            ensure!(&now == sh, "an element removed with its contents went from [{sh}] to [{now}]");
        }
    }
    let _ = live;
    w.roots.borrow_mut()[i].place = Place::group();
    w.drops.set(w.drops.get() + 1);
    Ok(())
}

/// D03: scripted root future.
pub fn d03(s: &mut Src) -> Result<(), String> {
    #[derive(Default)]
    struct M {
        polls: Cell<usize>,
        inside: Cell<bool>,
        bad: RefCell<Option<String>>,
        script: RefCell<std::collections::VecDeque<Vec<u8>>>,
        wakers: RefCell<Vec<Waker>>,
    }
    impl M {
        fn fail(&self, m: String) {
            let mut b = self.bad.borrow_mut();
            if b.is_none() {
                *b = Some(m);
            }
        }
    }
    let m = Rc::new(M::default());
    let m2 = m.clone();
    let fut = std::future::poll_fn(move |cx: &mut Context<'_>| -> Poll<()> {
        if m2.inside.replace(true) {
            m2.fail("the root task was polled from inside its own poll".into());
        }
        m2.polls.set(m2.polls.get() + 1);
        let before = m2.polls.get();
        let script = m2.script.borrow_mut().pop_front().unwrap_or_default();
        for a in script {
            match a {
                0 => cx.waker().wake_by_ref(),
                1 => executor::schedule(),
                2 => executor::run_now(),
                3 => m2.wakers.borrow_mut().push(cx.waker().clone()),
                _ => {
                    let w = m2.wakers.borrow_mut().pop();
                    if let Some(w) = w {
                        w.wake()
                    }
                }
            }
            if m2.polls.get() != before {
                m2.fail("the root task was polled from inside its own poll".into());
            }
        }
        m2.inside.set(false);
        Poll::Pending
    });
    executor::set_executor_future(Box::new(fut));
    // model
    let mut scheduled = false;
    let mut stale_timers = 0usize; // set before a run that already happened
    let steps = s.steps(5, [0, 25, 60, 120][s.size]);
    // how many polls a run performs, given the scripts queued
    let run = |m: &M, scheduled: &mut bool, held: &mut usize, q: &mut std::collections::VecDeque<Vec<u8>>| -> usize {
        let mut n = 0;
        while *scheduled {
            *scheduled = false;
            n += 1;
            for a in q.pop_front().unwrap_or_default() {
                match a {
                    0 | 1 => *scheduled = true,
                    2 => {}
                    3 => *held += 1,
                    _ => {
                        if *held > 0 {
                            *held -= 1;
                            *scheduled = true;
                        }
                    }
                }
            }
        }
        let _ = m;
        n
    };
    let mut held = 0usize;
    let mut q: std::collections::VecDeque<Vec<u8>> = Default::default();
    for _ in 0..steps {
        match s.pick(5) {
            0 | 1 => {
                s.t("wake outside a run");
                // a waker of the root task, or the function it stands for
                let w = if held > 0 && s.flag() { held -= 1; m.wakers.borrow_mut().pop() } else { None };
                match w {
                    Some(w) => w.wake(),
                    None => executor::schedule(),
                }
                let want = stale_timers + 1;
                scheduled = true;
                s.hit("wakes outside a run");
                ensure!(fake::pending_timers() == want, "{} timers pending after a wake outside a run, should be {want}", fake::pending_timers());
            }
            2 => {
                let mut v = vec![];
                for _ in 0..s.pick(4) {
                    v.push(s.pick(5) as u8);
                }
                s.t(format!("next poll will do {v:?}"));
                if v.iter().any(|a| *a < 2) {
                    s.hit("wakes inside a poll");
                }
                if v.contains(&2) {
                    s.hit("nested runs");
                }
                m.script.borrow_mut().push_back(v.clone());
                q.push_back(v);
            }
            k => {
                let p0 = m.polls.get();
                let timer = k == 4;
                if timer {
                    s.t("fire a timer");
                    if fake::pending_timers() == 0 {
                        ensure!(!scheduled, "a wake-up outside a run is owed but no timer is pending");
                        continue;
                    }
                    fake::fire_timer();
                } else {
                    s.t("run now");
                    executor::run_now();
                }
                if let Some(e) = m.bad.borrow_mut().take() {
                    return Err(e);
                }
                let want = run(&m, &mut scheduled, &mut held, &mut q);
                let got = m.polls.get() - p0;
                ensure!(got == want, "the root task was polled {got} times in this run, should be {want}");
                stale_timers = fake::pending_timers();
                ensure!(!scheduled, "model");
            }
        }
    }
    // whatever is owed still happens through timers alone
    let p0 = m.polls.get();
    let owed = scheduled;
    let want = run(&m, &mut scheduled, &mut held, &mut q);
    while fake::fire_timer() {}
    let got = m.polls.get() - p0;
    ensure!(got == want && (!owed || want > 0), "firing the pending timers polled the root task {got} times, should be {want}");
    Ok(())
}
