//! L01-L03: lists against a vector of keys.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use async_ui_web::lists::{DiffedList, DynamicList, ListModel, ModeledList};
use async_ui_web_core::combinators::join;
use async_ui_web_core::ContainerNodeFuture;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::fake;

type BF = Pin<Box<dyn Future<Output = ()>>>;

fn leaf(name: &str) -> ContainerNodeFuture<std::future::Pending<()>> {
    let d = web_sys::window().unwrap().document().unwrap();
    ContainerNodeFuture::new(pending(), d.create_element(name).unwrap().into())
}
/// What one item shows.
struct Item {
    key: i32,
    labels: Vec<String>,
    /// a node shown from the second signal on
    late: Option<String>,
    late_on: Cell<bool>,
    late_at_front: bool,
    polled: Cell<bool>,
    dropped: Cell<bool>,
    done: bool,
    wakers: RefCell<Vec<Waker>>,
}
impl Item {
    fn want(&self) -> Vec<String> {
        if !self.polled.get() {
            return vec![];
        }
        let mut v: Vec<String> = self.labels.iter().map(|l| format!("{l}()")).collect();
        if let Some(l) = &self.late {
            if self.late_on.get() {
                let at = if self.late_at_front { 0 } else { v.len() };
                v.insert(at, format!("{l}()"));
            }
        }
        v
    }
}
struct Fut(Rc<Item>, BF);
impl Future for Fut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.0.polled.set(true);
        self.1.as_mut().poll(cx)
    }
}
impl Drop for Fut {
    fn drop(&mut self) {
        self.0.dropped.set(true);
    }
}
struct Maker {
    n: Cell<usize>,
    shapes: Vec<usize>,
    made: RefCell<Vec<Rc<Item>>>,
}
impl Maker {
    fn new(s: &mut Src) -> Rc<Maker> {
        let k = 1 + if s.size == 0 { 0 } else { s.pick(4) };
        let shapes = (0..k).map(|_| s.pick(7)).collect();
        Rc::new(Maker { n: Cell::new(0), shapes, made: RefCell::new(vec![]) })
    }
    fn make(&self, key: i32) -> (Rc<Item>, BF) {
        let n = self.n.get();
        self.n.set(n + 1);
        let shape = self.shapes[n % self.shapes.len()];
        // 0: one node, 1: none, 2: three nodes, 3/4: one node and one late, 5: finishes, 6: nested element
        let cnt = [1, 0, 3, 1, 1, 0, 1][shape];
        let labels: Vec<String> = (0..cnt).map(|i| format!("k{key}g{n}n{i}")).collect();
        let it = Rc::new(Item {
            key,
            labels: labels.clone(),
            late: (shape == 3 || shape == 4).then(|| format!("k{key}g{n}late")),
            late_on: Cell::new(false),
            late_at_front: shape == 4,
            polled: Cell::new(false),
            dropped: Cell::new(false),
            done: shape == 5,
            wakers: RefCell::new(vec![]),
        });
        self.made.borrow_mut().push(it.clone());
        let it2 = it.clone();
        let inner: BF = Box::pin(async move {
            if it2.done {
                return;
            }
            let mut parts: Vec<BF> = labels.iter().map(|l| Box::pin(leaf(l)) as BF).collect();
            if let Some(l) = it2.late.clone() {
                let it3 = it2.clone();
                let f: BF = Box::pin(async move {
                    std::future::poll_fn(|cx| {
                        if it3.late_on.get() {
                            return Poll::Ready(());
                        }
                        it3.wakers.borrow_mut().push(cx.waker().clone());
                        Poll::Pending
                    })
                    .await;
                    leaf(&l).await;
                });
                let at = if it2.late_at_front { 0 } else { parts.len() };
                parts.insert(at, f);
            }
            if parts.is_empty() {
                pending::<()>().await;
            } else if parts.len() == 1 {
                parts.pop().unwrap().await;
            } else {
                join(parts).await;
            }
        });
        (it.clone(), Box::pin(Fut(it, inner)))
    }
}

/// The page: an optional late sibling before the list, the list, a sibling after it.
struct Page {
    root: web_sys::Node,
    fut: Option<BF>,
    cw: CW,
    first: bool,
    pre: Rc<Cell<bool>>,
    pre_waker: Rc<RefCell<Option<Waker>>>,
    post: bool,
    bare: bool,
}
impl Page {
    fn new() -> Self {
        let d = web_sys::window().unwrap().document().unwrap();
        Page {
            root: d.create_element("root").unwrap().into(),
            fut: None,
            cw: CW::new(),
            first: true,
            pre: Rc::new(Cell::new(false)),
            pre_waker: Default::default(),
            post: false,
            bare: false,
        }
    }
    fn show(&mut self, s: &mut Src, render: BF) {
        self.first = true;
        self.pre.set(false);
        self.bare = s.pick(3) == 0;
        if self.bare {
            self.post = false;
            self.fut = Some(Box::pin(ContainerNodeFuture::new_root(render, self.root.clone())));
            s.t("render the list alone");
            return;
        }
        self.post = s.flag();
        s.t(format!("render the list between a late sibling and {}", if self.post { "another node" } else { "nothing" }));
        let (p, w) = (self.pre.clone(), self.pre_waker.clone());
        let pre: BF = Box::pin(async move {
            std::future::poll_fn(|cx| {
                if p.get() {
                    return Poll::Ready(());
                }
                *w.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            })
            .await;
            leaf("pre").await;
        });
        let mut v = vec![pre, render];
        if self.post {
            v.push(Box::pin(leaf("post")));
        }
        let f = join(v);
        self.fut = Some(Box::pin(ContainerNodeFuture::new_root(
            async move {
                f.await;
            },
            self.root.clone(),
        )));
    }
    fn settle(&mut self) {
        for _ in 0..100 {
            if let Some(f) = &mut self.fut {
                if self.first || self.cw.take() > 0 {
                    self.first = false;
                    let mut cx = Context::from_waker(&self.cw.w);
                    let _ = f.as_mut().poll(&mut cx);
                    continue;
                }
            }
            break;
        }
    }
    fn fire_pre(&mut self) {
        self.pre.set(true);
        if let Some(w) = self.pre_waker.borrow_mut().take() {
            w.wake();
        }
    }
    fn wrap(&self, items: Vec<String>, settled: bool) -> String {
        let mut v = vec![];
        if !self.bare && self.pre.get() && settled {
            v.push("pre()".to_string());
        }
        v.extend(items);
        if self.post {
            v.push("post()".into());
        }
        v.join(" ")
    }
}
/// the nodes a list with no items puts in the page
fn bare_nodes() -> usize {
    thread_local!(static N: Cell<Option<usize>> = const { Cell::new(None) });
    if let Some(n) = N.with(|n| n.get()) {
        return n;
    }
    let root: web_sys::Node = web_sys::window().unwrap().document().unwrap().create_element("root").unwrap().into();
    let list: DynamicList<'static, i32, BF> = DynamicList::new();
    let mut f: BF = Box::pin(ContainerNodeFuture::new_root(async move { list.render().await }, root.clone()));
    let _ = f.as_mut().poll(&mut Context::from_waker(&CW::new().w));
    let n = root.child_list().len();
    N.with(|c| c.set(Some(n)));
    n
}
fn check(page: &Page, seq: &[Rc<Item>], settled: bool) -> Result<(), String> {
    if page.fut.is_none() {
        let got = fake::show_children(&page.root);
        ensure!(got.is_empty(), "after the list's render was dropped the page still shows [{got}]");
        let n = page.root.child_list().len();
        ensure!(n == 0, "after the list's render was dropped {n} nodes stay in the page");
        return Ok(());
    }
    if settled {
        let want = page.wrap(seq.iter().flat_map(|i| i.want()).collect(), true);
        let got = fake::show_children(&page.root);
        ensure!(got == want, "page shows [{got}], should show [{want}]");
        if seq.is_empty() {
            // nodes that show nothing: as many as a list that never had an item has
            let n = page.root.child_list().iter().filter(|c| fake::show(c).is_empty()).count();
            ensure!(n == bare_nodes(), "the list is empty but {n} nodes of it are left, {} expected", bare_nodes());
        }
    } else if !page.first {
        // only the items that are in the list and were shown already; later nodes not counted
        let ok = |l: &str| seq.iter().any(|i| i.polled.get() && i.labels.iter().any(|x| format!("{x}()") == l));
        let got: Vec<String> = page.root.child_list().iter().map(fake::show).filter(|l| ok(l)).collect();
        let want: Vec<String> = seq.iter().filter(|i| i.polled.get()).flat_map(|i| i.labels.iter().map(|x| format!("{x}()"))).collect();
        ensure!(got == want, "right after the operation the items shown are {got:?}, should be {want:?}");
    }
    Ok(())
}

pub fn l01(s: &mut Src) -> Result<(), String> {
    let mk = Maker::new(s);
    let list: Rc<DynamicList<'static, i32, BF>> = Rc::new(DynamicList::new());
    let mut seq: Vec<Rc<Item>> = vec![];
    let mut page = Page::new();
    let nk = if s.size == 0 { 3 } else { 8 };
    let steps = s.steps(5, [0, 14, 30, 80][s.size]);
    if s.flag() {
        let l = list.clone();
        page.show(s, Box::pin(async move { l.render().await }));
        page.settle();
    }
    for _ in 0..steps {
        let keyname = |s: &mut Src| s.pick(nk) as i32;
        let pos = |seq: &Vec<Rc<Item>>, k: i32| seq.iter().position(|i| i.key == k);
        match s.pick(8) {
            0 | 1 => {
                let k = keyname(s);
                let before = if s.flag() { Some(keyname(s)) } else { None };
                s.t(format!("insert {k} before {before:?}"));
                let (it, f) = mk.make(k);
                let had = pos(&seq, k);
                if had.is_some() {
                    s.hit("replaced an item");
                }
                if let Some(b) = before {
                    if pos(&seq, b).is_none() {
                        s.hit("absent before key");
                    }
                }
                let at = before.and_then(|b| pos(&seq, b)).unwrap_or(seq.len());
                let r = list.insert(k, f, before.as_ref());
                ensure!(r == had.is_some(), "insert returned {r}");
                if let Some(h) = had {
                    seq.remove(h);
                    seq.insert(if h < at { at - 1 } else { at }, it);
                } else {
                    seq.insert(at, it);
                }
            }
            2 => {
                let k = keyname(s);
                s.t(format!("remove {k}"));
                let had = pos(&seq, k);
                let r = list.remove(&k);
                ensure!(r == had.is_some(), "remove returned {r}");
                if let Some(h) = had {
                    seq.remove(h);
                }
            }
            3 => {
                if seq.is_empty() {
                    continue;
                }
                let i = s.pick(seq.len());
                let k = seq[i].key;
                let before = if s.flag() { Some(keyname(s)) } else { None };
                s.t(format!("move {k} before {before:?}"));
                list.move_before(&k, before.as_ref());
                if before != Some(k) {
                    let x = seq.remove(i);
                    let at = before.and_then(|b| pos(&seq, b)).unwrap_or(seq.len());
                    seq.insert(at, x);
                }
                s.hit("moves");
            }
            4 => {
                if seq.is_empty() {
                    continue;
                }
                let (a, b) = (s.pick(seq.len()), s.pick(seq.len()));
                s.t(format!("swap {} and {}", seq[a].key, seq[b].key));
                list.swap(&seq[a].key, &seq[b].key);
                if a.abs_diff(b) == 1 {
                    s.hit("adjacent swaps");
                }
                seq.swap(a, b);
            }
            5 => {
                if s.flag() {
                    // signal the items' late parts
                    s.t("late parts appear");
                    for i in &seq {
                        i.late_on.set(i.polled.get() && i.late.is_some());
                        for w in i.wakers.borrow_mut().drain(..) {
                            w.wake();
                        }
                    }
                    if page.fut.is_none() {
                        continue;
                    }
                    page.settle();
                } else {
                    let m = s.pick(1 << seq.len().min(6));
                    let keep: Vec<i32> = seq.iter().enumerate().filter(|x| m >> (x.0 % 6) & 1 == 0).map(|x| x.1.key).collect();
                    s.t(format!("retain {keep:?}"));
                    let mut asked = vec![];
                    list.retain(|k| {
                        asked.push(*k);
                        keep.contains(k)
                    });
                    asked.sort();
                    let mut all: Vec<i32> = seq.iter().map(|i| i.key).collect();
                    all.sort();
                    ensure!(asked == all, "retain asked about {asked:?}, the list holds {all:?}");
                    seq.retain(|i| keep.contains(&i.key));
                }
            }
            6 => {
                if page.fut.is_some() {
                    if s.flag() {
                        s.t("earlier sibling appears");
                        page.fire_pre();
                        page.settle();
                    } else {
                        s.t("stop rendering");
                        page.fut = None;
                        s.hit("stopped rendering");
                    }
                } else {
                    let l = list.clone();
                    page.show(s, Box::pin(async move { l.render().await }));
                    page.settle();
                    s.hit("rendered with items");
                }
            }
            _ => {
                s.t("settle");
                page.settle();
                check(&page, &seq, true)?;
            }
        }
        check(&page, &seq, false)?;
        for k in 0..nk as i32 {
            ensure!(list.contains_key(&k) == pos(&seq, k).is_some(), "contains_key({k}) is wrong");
        }
        if page.fut.is_some() && s.flag() {
            page.settle();
            check(&page, &seq, true)?;
        }
    }
    if page.fut.is_none() {
        let l = list.clone();
        page.show(s, Box::pin(async move { l.render().await }));
    }
    page.settle();
    check(&page, &seq, true)?;
    for it in mk.made.borrow().iter() {
        let inlist = seq.iter().any(|i| Rc::ptr_eq(i, it));
        ensure!(it.done || it.dropped.get() != inlist, "future of key {} is {} although it is {} the list", it.key, if it.dropped.get() { "dropped" } else { "alive" }, if inlist { "in" } else { "not in" });
    }
    drop(page);
    drop(list);
    Ok(())
}

fn distinct(s: &mut Src, pool: usize, max: usize) -> Vec<i32> {
    let n = s.pick(max.min(pool) + 1);
    let p = s.shuffle(pool);
    p[..n].iter().map(|x| *x as i32).collect()
}

pub fn l02(s: &mut Src) -> Result<(), String> {
    let mk = Maker::new(s);
    let calls: Rc<RefCell<Vec<Rc<Item>>>> = Default::default();
    let (m, c) = (mk.clone(), calls.clone());
    let list = Rc::new(DiffedList::new(move |k: &i32| {
        let (it, f) = m.make(*k);
        c.borrow_mut().push(it);
        f
    }));
    let mut page = Page::new();
    let mut shown: Vec<Rc<Item>> = vec![];
    if s.flag() {
        let l = list.clone();
        page.show(s, Box::pin(async move { l.render().await }));
        page.settle();
    }
    let pool = [4, 7, 12, 40][s.size];
    let n = 1 + s.steps(2, [0, 5, 10, 10][s.size]);
    for _ in 0..n {
        let keys = if s.flag() {
            distinct(s, pool, pool)
        } else {
            // a small change of what is shown
            let mut v: Vec<i32> = shown.iter().map(|i| i.key).collect();
            for _ in 0..s.pick(4) {
                match s.pick(3) {
                    0 if !v.is_empty() => {
                        let a = s.pick(v.len());
                        let x = v.remove(a);
                        let b = s.pick(v.len() + 1);
                        v.insert(b, x);
                    }
                    1 if !v.is_empty() => {
                        let a = s.pick(v.len());
                        v.remove(a);
                    }
                    _ => {
                        if let Some(x) = (0..pool as i32).find(|x| !v.contains(x)) {
                            let b = s.pick(v.len() + 1);
                            v.insert(b, x);
                        }
                    }
                }
            }
            v
        };
        s.t(format!("update {:?} -> {keys:?}", shown.iter().map(|i| i.key).collect::<Vec<_>>()));
        calls.borrow_mut().clear();
        list.update(keys.clone());
        let made = calls.borrow().clone();
        let mut want_new: Vec<i32> = keys.iter().copied().filter(|k| !shown.iter().any(|i| i.key == *k)).collect();
        let mut got_new: Vec<i32> = made.iter().map(|i| i.key).collect();
        want_new.sort();
        got_new.sort();
        ensure!(want_new == got_new, "renderer called for {got_new:?}, new keys are {want_new:?}");
        if keys.iter().zip(&shown).any(|(k, i)| *k != i.key) {
            s.hit("order changed");
        }
        let old = std::mem::take(&mut shown);
        for k in &keys {
            let it = old.iter().chain(&made).find(|i| i.key == *k).unwrap();
            shown.push(it.clone());
        }
        for k in 0..pool as i32 {
            ensure!(list.contains_key(&k) == keys.contains(&k), "contains_key({k}) is wrong");
        }
        if page.fut.is_some() && s.rare(5) {
            page.fut = None;
            s.t("stop rendering");
        } else if page.fut.is_none() && s.flag() {
            let l = list.clone();
            page.show(s, Box::pin(async move { l.render().await }));
        }
        check(&page, &shown, false)?;
        page.settle();
        check(&page, &shown, true)?;
        for it in mk.made.borrow().iter() {
            let inlist = shown.iter().any(|i| Rc::ptr_eq(i, it));
            ensure!(it.done || !(it.dropped.get() && inlist), "future of key {} was dropped although the key stayed", it.key);
            ensure!(page.fut.is_none() || it.dropped.get() || inlist, "future of removed key {} is still alive", it.key);
        }
    }
    if page.fut.is_none() {
        let l = list.clone();
        page.show(s, Box::pin(async move { l.render().await }));
        page.settle();
        check(&page, &shown, true)?;
    }
    drop(page);
    Ok(())
}

pub fn l03(s: &mut Src) -> Result<(), String> {
    let mk = Maker::new(s);
    struct L<F> {
        calls: Rc<RefCell<Vec<Rc<Item>>>>,
        list: Rc<F>,
        page: Page,
        shown: Vec<Rc<Item>>,
        /// index of the model last used, keys removed from it since
        model: Option<usize>,
        removed: Vec<i32>,
        edits: usize,
    }
    let nl = if s.size == 0 { 1 } else { 1 + s.pick(2) };
    let mut lists = vec![];
    for _ in 0..nl {
        let calls: Rc<RefCell<Vec<Rc<Item>>>> = Default::default();
        let (m, c) = (mk.clone(), calls.clone());
        let list = Rc::new(ModeledList::new(move |k: &i32| {
            let (it, f) = m.make(*k);
            c.borrow_mut().push(it);
            f
        }));
        let mut page = Page::new();
        if s.flag() {
            let l = list.clone();
            page.show(s, Box::pin(async move { l.render().await }));
            page.settle();
        }
        lists.push(L { calls, list, page, shown: vec![], model: None, removed: vec![], edits: 0 });
    }
    let pool = [5, 9, 16, 40][s.size];
    let start = distinct(s, pool, pool);
    s.t(format!("model 0 = {start:?}"));
    let mut models: Vec<(ListModel<i32>, Vec<i32>)> = vec![(ListModel::from(start.clone()), start)];
    let steps = s.steps(5, [0, 25, 60, 150][s.size]);
    let mut step = 0;
    let mut mid_update = false;
    while step <= steps {
        step += 1;
        let last = step > steps;
        let mi = s.pick(models.len());
        let op = if last { 9 } else { s.pick(12) };
        if op < 8 {
            mid_update = true;
            let (m, v) = &mut models[mi];
            let fresh = (0..pool as i32).find(|x| !v.contains(x));
            let mut removed = vec![];
            let mut did = String::new();
            match op {
                0 => {
                    if let Some(k) = fresh {
                        let at = s.pick(v.len() + 1);
                        did = format!("insert {k} at {at}");
                        m.insert(at, k);
                        v.insert(at, k);
                    }
                }
                1 | 2 => {
                    if let Some(k) = fresh {
                        did = format!("push {k}");
                        m.push(k);
                        v.push(k);
                    }
                }
                3 => {
                    let r = m.pop();
                    did = "pop".into();
                    let w = v.pop();
                    ensure!(r == w, "pop returned {r:?}, should be {w:?}");
                    removed.extend(w);
                }
                4 => {
                    if !v.is_empty() {
                        let at = s.pick(v.len());
                        did = format!("remove at {at}");
                        let r = m.remove(at);
                        let w = v.remove(at);
                        ensure!(r == w, "remove returned {r}, should be {w}");
                        removed.push(w);
                    }
                }
                5 => {
                    if !v.is_empty() {
                        let (a, b) = (s.pick(v.len()), s.pick(v.len()));
                        did = format!("swap {a} {b}");
                        m.swap(a, b);
                        v.swap(a, b);
                    }
                }
                6 => {
                    if !v.is_empty() {
                        let (a, b) = (s.pick(v.len()), s.pick(v.len()));
                        did = format!("move_item {a} to {b}");
                        m.move_item(a, b);
                        let x = v.remove(a);
                        v.insert(b, x);
                    }
                }
                _ => {
                    if s.rare(3) {
                        did = "modify_vec".into();
                        s.hit("direct access");
                        let keep = s.pick(v.len() + 1);
                        let before = v.clone();
                        let mv = m.modify_vec();
                        mv.reverse();
                        mv.truncate(keep);
                        if let Some(k) = fresh {
                            mv.insert(0, k);
                        }
                        *v = mv.clone();
                        removed = before.into_iter().filter(|k| !v.contains(k)).collect();
                    }
                }
            }
            if !did.is_empty() {
                s.t(format!("model {mi}: {did} -> {v:?}"));
            }
            ensure!(m[..] == v[..], "model is {:?}, should be {v:?}", &m[..]);
            for l in lists.iter_mut() {
                if l.model == Some(mi) {
                    l.removed.extend(removed.iter().copied());
                    l.edits += 1;
                }
            }
            continue;
        }
        if op == 11 && s.flag() && models.len() < 3 {
            let c = (models[mi].0.clone(), models[mi].1.clone());
            s.t(format!("model {} = clone of {mi}", models.len()));
            models.push(c);
            continue;
        }
        let li = s.pick(lists.len());
        let l = &mut lists[li];
        s.t(format!("update list {li} from model {mi}"));
        if mid_update {
            s.hit("updates after edits");
        }
        l.calls.borrow_mut().clear();
        let (m, v) = &models[mi];
        l.list.update(m);
        let made = l.calls.borrow().clone();
        let same = l.model == Some(mi);
        if same && l.edits > 0 {
            if l.edits > v.len() / 2 {
                s.hit("more edits than are logged");
            } else {
                s.hit("incremental updates");
            }
        }
        if !same && l.model.is_some() {
            s.hit("another model");
        }
        let mut now = vec![];
        for k in v {
            let old = l.shown.iter().find(|i| i.key == *k);
            let new = made.iter().rev().find(|i| i.key == *k);
            let keep = same && !l.removed.contains(k);
            let it = match (old, new) {
                (Some(o), None) => o,
                (_, Some(_)) if keep && old.is_some() => return Err(format!("key {k} stayed in the model but its future was made anew")),
                (_, Some(n)) => n,
                (None, None) => return Err(format!("no future was ever made for key {k}")),
            };
            now.push(it.clone());
        }
        l.shown = now;
        l.model = Some(mi);
        l.removed.clear();
        l.edits = 0;
        if l.page.fut.is_none() && s.flag() {
            let r = l.list.clone();
            l.page.show(s, Box::pin(async move { r.render().await }));
        }
        check(&l.page, &l.shown, false)?;
        l.page.settle();
        check(&l.page, &l.shown, true)?;
        for it in l.shown.iter() {
            ensure!(it.done || !it.dropped.get(), "future of key {} was dropped although the key stayed", it.key);
        }
        if last && l.page.fut.is_none() {
            let r = l.list.clone();
            l.page.show(s, Box::pin(async move { r.render().await }));
            l.page.settle();
            check(&l.page, &l.shown, true)?;
        }
    }
    for l in lists {
        drop(l.page);
    }
    Ok(())
}

/// A page that scrolls: fixed-size items between the two spacers.
struct View {
    root: web_sys::HtmlElement,
    spf: web_sys::HtmlElement,
    spb: web_sys::HtmlElement,
    h: f64,
    size: f64,
    y: f64,
    mounted: bool,
}
impl View {
    fn items(&self) -> Vec<usize> {
        let n: &web_sys::Node = &self.root;
        n.child_list().iter().filter_map(|k| k.node_name().strip_prefix("ITEM").or(k.node_name().strip_prefix("item")).map(|x| x.parse().unwrap())).collect()
    }
    fn spacer(e: &web_sys::HtmlElement) -> f64 {
        e.get_attribute("style:block-size").map(|x| x.strip_suffix("px").unwrap().parse().unwrap()).unwrap_or(0.0)
    }
    fn set(&self, e: &web_sys::HtmlElement, a: f64, b: f64) {
        e.fake_set_rect(a, b, -900.0, 3000.0)
    }
    /// lay out; where the scroll position had to be clamped: true
    fn layout(&mut self) -> bool {
        if !self.mounted {
            return false;
        }
        let (f, b, n) = (Self::spacer(&self.spf), Self::spacer(&self.spb), self.items().len() as f64 * self.size);
        let y = self.y.min((f + n + b - self.h).max(0.0));
        let clamped = y != self.y;
        self.y = y;
        let t = 13.0;
        self.set(&self.root, t, t + self.h);
        self.set(&self.spf, t - y, t - y + f);
        self.set(&self.spb, t - y + f + n, t - y + f + n + b);
        clamped
    }
    /// front top and bottom, back top, root top and bottom
    fn geo(&self) -> (f64, f64, f64, f64, f64) {
        let g = |e: &web_sys::HtmlElement| { let r = e.get_bounding_client_rect(); (r.top(), r.bottom()) };
        let (f, b, r) = (g(&self.spf), g(&self.spb), g(&self.root));
        (f.0, f.1, b.0, r.0, r.1)
    }
}
pub fn v01(s: &mut Src) -> Result<(), String> {
    use async_ui_web::lists::VirtualizedList;
    let d = web_sys::window().unwrap().document().unwrap();
    let el = |n: &str| -> web_sys::HtmlElement { use wasm_bindgen::JsCast; d.create_element(n).unwrap().unchecked_into() };
    let mut v = View { root: el("root"), spf: el("front"), spb: el("back"), h: [100.0, 40.0, 7.0][s.pick(3)], size: [20.0, 50.0, 3.0][s.pick(3)], y: 0.0, mounted: false };
    let calls: Rc<RefCell<Vec<usize>>> = Rc::default();
    let c2 = calls.clone();
    let root = v.root.clone();
    let list = VirtualizedList::new(&root, v.spf.clone(), v.spb.clone(), move |i| { c2.borrow_mut().push(i); leaf(&format!("item{i}")) });
    let cw = CW::new();
    let mut fut: Option<Pin<Box<dyn Future<Output = ()> + '_>>> = None;
    let mut n = 0;
    let max = [30, 60, 300, 2000][s.size];
    let steps = s.steps(3, [0, 8, 16, 24][s.size]);
    for step in 0..steps + 1 {
        let before = v.items();
        calls.borrow_mut().clear();
        let k = if step == steps || s.pick(4) == 0 && fut.is_none() { 9 } else { s.pick(5) };
        match k {
            9 => {
                if fut.is_none() {
                    s.t("render".to_string());
                    let rf = list.render();
                    v.mounted = true;
                    v.layout();
                    fut = Some(Box::pin(ContainerNodeFuture::new_root(rf, v.root.clone().into())));
                } else {
                    continue;
                }
            }
            0 | 1 => {
                n = s.pick(max + 1);
                s.t(format!("{n} items"));
                list.set_num_items(n);
            }
            _ => {
                v.y = [0.0, 1e9, v.y + 35.0, (v.y - 35.0).max(0.0), v.y + 400.0, (v.y - 400.0).max(0.0)][s.pick(6)];
                v.layout();
                s.t(format!("scroll to {}", v.y));
                let ev = web_sys::Event::new("scroll").unwrap();
                let t: &web_sys::EventTarget = &v.root;
                t.dispatch_event(&ev).unwrap();
            }
        }
        // what the list has to go by
        let g = v.geo();
        let mut rounds = 0;
        let mut prev = before;
        let mut geo = g;
        loop {
            if let Some(f) = &mut fut {
                loop {
                    cw.take();
                    let _ = f.as_mut().poll(&mut Context::from_waker(&cw.w));
                    if cw.n() == 0 {
                        break;
                    }
                }
                let now = v.items();
                let (f0, f1, b0, r0, r1) = geo;
                let h = r1 - r0;
                let (a, b) = (now.first().copied().unwrap_or(0), now.last().map_or(0, |x| x + 1));
                ensure!(now.iter().enumerate().all(|(i, x)| *x == a + i), "the items shown are {now:?}, which is not a range in order");
                ensure!(b <= n, "the items shown are {now:?}, but the list has {n} items only");
                let (sf, sb) = (View::spacer(&v.spf), View::spacer(&v.spb));
                let mut c = calls.borrow().clone();
                c.sort();
                let mut new: Vec<usize> = now.iter().filter(|x| !prev.contains(x)).copied().collect();
                new.sort();
                ensure!(c == new, "the renderer was called for {c:?}; the items shown now but not before are {new:?}");
                if !now.is_empty() {
                    ensure!((sf > 0.0) == (a > 0), "the front spacer is {sf}px; the first item shown is {a}");
                    ensure!((sb > 0.0) == (b < n), "the back spacer is {sb}px; {} of {n} items follow those shown", n - b);
                    if sf > 0.0 && sb > 0.0 {
                        let (p, q) = (sf / a as f64, sb / (n - b) as f64);
                        ensure!((p - q).abs() < 1e-6 * p, "the spacers stand for items of {p}px in front and {q}px behind");
                    }
                } else {
                    let avg = if prev.is_empty() { h / 4.0 } else { (b0 - f1) / prev.len() as f64 };
                    ensure!(n == 0 || f0 + avg * (n as f64) <= r0 - 2.0 * h + 1e-6 || f0 >= r1 + 2.0 * h, "no items shown of {n}");
                    ensure!(sf + sb <= avg * n as f64 + 1e-6, "the spacers are {sf}px and {sb}px for {n} items of {avg}px");
                }
                if !now.is_empty() {
                    let kept = (a == 0 || f1 + 1.25 * h < r0) && (b == n || b0 - 1.25 * h > r1) && now == prev;
                    let avg = if prev.is_empty() { h / 4.0 } else { (b0 - f1) / prev.len() as f64 };
                    let e = 1e-6;
                    let covers = (a == 0 || f0 + avg * a as f64 <= r0 - 2.0 * h + e) && (b == n || f0 + avg * b as f64 >= r1 + 2.0 * h - e);
                    let tight = f0 + avg * (a + 1) as f64 > r0 - 2.0 * h - e && f0 + avg * (b - 1) as f64 <= r1 + 2.0 * h + e;
                    ensure!(kept || covers, "items {a}..{b} of {n} shown do not cover the viewport: front {f0}..{f1}, back from {b0}, viewport {r0}..{r1}");
                    ensure!(kept || tight, "items {a}..{b} of {n} shown are more than those around the viewport: front {f0}..{f1}, back from {b0}, viewport {r0}..{r1}");
                    s.hit(if kept { "nothing to do" } else { "range moved" });
                }
                prev = now;
                calls.borrow_mut().clear();
            }
            let clamped = v.layout();
            rounds += 1;
            if !clamped || rounds > 3 {
                break;
            }
            s.hit("clamped");
            let ev = web_sys::Event::new("scroll").unwrap();
            let t: &web_sys::EventTarget = &v.root;
            t.dispatch_event(&ev).unwrap();
            geo = v.geo();
        }
        if fut.is_none() {
            ensure!(v.items().is_empty(), "items shown before the list is rendered");
        }
    }
    drop(fut);
    let t: &web_sys::EventTarget = &v.root;
    ensure!(t.fake_listeners().is_empty(), "{} listeners stay after the list is dropped", t.fake_listeners().len());
    Ok(())
}
