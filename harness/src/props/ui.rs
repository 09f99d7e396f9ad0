//! U01-U03: slots, event streams, dropdowns.
use crate::core::*;
use crate::ensure;
use crate::util::CW;
use async_ui_web::components::{Dropdown, DynamicSlot};
use async_ui_web::event_traits::EmitEvent;
use async_ui_web_core::ContainerNodeFuture;
use futures_core::Stream;
use std::cell::{Cell, RefCell};
use std::future::{pending, Future};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
use web_sys::{fake, Event, EventTarget};

#[derive(Default)]
struct Fu {
    id: usize,
    polls: Cell<usize>,
    finish_at: usize,
    done: Cell<bool>,
    dropped: Cell<bool>,
    last: RefCell<Option<Waker>>,
    bad: RefCell<Option<String>>,
}
struct SlotFut {
    f: Rc<Fu>,
    node: Option<Pin<Box<ContainerNodeFuture<std::future::Pending<()>>>>>,
}
impl Future for SlotFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.f.done.get() {
            *self.f.bad.borrow_mut() = Some(format!("future {} was polled again after it completed", self.f.id));
        }
        self.f.polls.set(self.f.polls.get() + 1);
        *self.f.last.borrow_mut() = Some(cx.waker().clone());
        if self.f.polls.get() == self.f.finish_at {
            self.f.done.set(true);
            return Poll::Ready(());
        }
        if let Some(n) = &mut self.node {
            let _ = n.as_mut().poll(cx);
        }
        Poll::Pending
    }
}
impl Drop for SlotFut {
    fn drop(&mut self) {
        self.f.dropped.set(true);
    }
}

pub fn u01(s: &mut Src) -> Result<(), String> {
    let slot: Rc<DynamicSlot<SlotFut>> = Rc::new(DynamicSlot::new());
    let doc = web_sys::window().unwrap().document().unwrap();
    let root: web_sys::Node = doc.create_element("root").unwrap().into();
    let sl = slot.clone();
    let mut fut: Option<Pin<Box<dyn Future<Output = ()>>>> = Some(Box::pin(ContainerNodeFuture::new_root(async move { sl.render().await }, root.clone())));
    let pool: Vec<CW> = (0..if s.size == 0 { 2 } else { 4 }).map(|_| CW::new()).collect();
    let mut all: Vec<Rc<Fu>> = vec![];
    let mut want: Option<Rc<Fu>> = None; // last message
    let mut held: Option<Rc<Fu>> = None;
    let mut last_waker: Option<usize> = None;
    let steps = s.steps(6, [0, 15, 40, 100][s.size]);
    for _ in 0..steps {
        match s.pick(5) {
            0 | 1 => {
                let f = Rc::new(Fu { id: all.len(), finish_at: s.pick(4), ..Default::default() });
                s.t(format!("set future {} that completes at its poll {}", f.id, f.finish_at));
                let node = s.flag().then(|| Box::pin(ContainerNodeFuture::new(pending(), doc.create_element(&format!("n{}", f.id)).unwrap().into())));
                all.push(f.clone());
                for p in &pool {
                    p.take();
                }
                slot.set_future(SlotFut { f: f.clone(), node });
                want = Some(f);
                if let Some(w) = last_waker {
                    ensure!(pool[w].n() > 0, "setting a future did not wake the task that renders the slot");
                }
            }
            2 => {
                s.t("clear");
                for p in &pool {
                    p.take();
                }
                slot.clear_future();
                want = None;
                if let Some(w) = last_waker {
                    ensure!(pool[w].n() > 0, "clearing the slot did not wake the task that renders it");
                }
            }
            _ => {
                let w = s.pick(pool.len());
                s.t(format!("poll with task {w}"));
                let before: Vec<usize> = all.iter().map(|f| f.polls.get()).collect();
                let done: Vec<bool> = all.iter().map(|f| f.done.get()).collect();
                let mut cx = Context::from_waker(&pool[w].w);
                let r = fut.as_mut().unwrap().as_mut().poll(&mut cx);
                ensure!(r.is_pending(), "rendering a slot completed");
                last_waker = Some(w);
                held = want.clone();
                for f in &all {
                    if let Some(e) = f.bad.borrow_mut().take() {
                        return Err(e);
                    }
                    let is = held.as_ref().is_some_and(|h| Rc::ptr_eq(h, f));
                    let n = f.polls.get() - before[f.id];
                    let expect = (is && !done[f.id]) as usize;
                    ensure!(n == expect, "future {} was polled {n} times in this poll, should be {expect}", f.id);
                    if expect == 1 {
                        ensure!(f.last.borrow().as_ref().unwrap().will_wake(&pool[w].w), "future {} was not polled with the current waker", f.id);
                    }
                    if done[f.id] && is {
                        s.hit("polled after completion of the held future");
                    }
                    ensure!(is || f.dropped.get(), "superseded future {} is still alive", f.id);
                    ensure!(!is || f.done.get() || !f.dropped.get(), "the held future {} was dropped", f.id);
                }
            }
        }
        // nodes of superseded futures are gone after a poll
        let _ = &held;
    }
    let shown = fake::show_children(&root);
    if let Some(h) = &held {
        let others = all.iter().filter(|f| f.id != h.id).any(|f| shown.split_whitespace().any(|x| x == format!("n{}()", f.id)));
        ensure!(!others, "the slot shows [{shown}] while it holds future {}", h.id);
    } else {
        ensure!(shown.is_empty(), "the slot shows [{shown}] while it holds nothing");
    }
    fut = None;
    let _ = fut;
    let pending_set = want.is_some() && !want.as_ref().zip(held.as_ref()).is_some_and(|(a, b)| Rc::ptr_eq(a, b));
    for f in &all {
        let msg = pending_set && want.as_ref().is_some_and(|w| Rc::ptr_eq(w, f));
        ensure!(msg || f.dropped.get(), "future {} outlives the rendering of its slot", f.id);
    }
    Ok(())
}

/// the streams with a name of their own
fn named_events() -> Result<(), String> {
    use async_ui_web::prelude_traits::*;
    use wasm_bindgen::JsCast;
    let e: web_sys::HtmlElement = web_sys::window().unwrap().document().unwrap().create_element("div").unwrap().unchecked_into();
    let cw = CW::new();
    macro_rules! each {
        ($t:ty: $($name:literal $f:ident),*) => {$(
            let mut st = Box::pin(AsRef::<$t>::as_ref(&e).$f());
            let _ = st.as_mut().poll_next(&mut Context::from_waker(&cw.w));
            let got = e.fake_listeners();
            ensure!(got == [($name.to_string(), false, false)], "{} listens as (name, capture, passive) {got:?}", stringify!($f));
            drop(st);
            let got = e.fake_listeners();
            ensure!(got.is_empty(), "{} leaves listeners {got:?}", stringify!($f));
        )*};
    }
    each!(web_sys::Element: "cancel" until_cancel, "error" until_error, "scroll" until_scroll, "securitypolicyviolation" until_securitypolicyviolation, "select" until_select, "wheel" until_wheel, "compositionend" until_compositionend, "compositionstart" until_compositionstart, "compositionupdate" until_compositionupdate, "blur" until_blur, "focus" until_focus, "focusin" until_focusin, "focusout" until_focusout, "fullscreenchange" until_fullscreenchange, "fullscreenerror" until_fullscreenerror, "keydown" until_keydown, "keyup" until_keyup, "auxclick" until_auxclick, "click" until_click, "contextmenu" until_contextmenu, "dblclick" until_dblclick, "mousedown" until_mousedown, "mouseenter" until_mouseenter, "mouseleave" until_mouseleave, "mousemove" until_mousemove, "mouseout" until_mouseout, "mouseover" until_mouseover, "mouseup" until_mouseup, "touchcancel" until_touchcancel, "touchend" until_touchend, "touchmove" until_touchmove, "touchstart" until_touchstart);
    each!(web_sys::HtmlElement: "input" until_input, "change" until_change, "drag" until_drag, "dragend" until_dragend, "dragenter" until_dragenter, "dragleave" until_dragleave, "dragover" until_dragover, "dragstart" until_dragstart, "drop" until_drop, "load" until_load);
    Ok(())
}
pub fn u02(s: &mut Src) -> Result<(), String> {
    if s.size > 0 && s.rare(200) {
        return named_events();
    }
    let target = EventTarget::new().unwrap();
    type S = async_ui_web::event_handling::EventFutureStream<Event>;
    struct St {
        f: Option<Pin<Box<S>>>,
        name: String,
        capture: bool,
        passive: bool,
        registered: bool,
        latest: Option<usize>,
        waker: Option<usize>,
    }
    let names = ["click", "input"];
    let pool: Vec<CW> = (0..3).map(|_| CW::new()).collect();
    let mut sts: Vec<St> = vec![];
    let steps = s.steps(6, [0, 20, 50, 100][s.size]);
    let check = |sts: &Vec<St>| -> Result<(), String> {
        let mut want: Vec<(String, bool, bool)> = sts.iter().filter(|x| x.registered && x.f.is_some()).map(|x| (x.name.clone(), x.capture, x.passive)).collect();
        let mut got = target.fake_listeners();
        want.sort();
        got.sort();
        ensure!(got == want, "listeners on the target (name, capture, passive) are {got:?}, should be {want:?}");
        Ok(())
    };
    for _ in 0..steps {
        match s.pick(5) {
            0 => {
                let name = names[s.pick(2)];
                let mut f: S = target.until_event(name.into());
                let o = s.pick(5);
                let (mut capture, mut passive) = (false, false);
                match o {
                    1 => {
                        capture = true;
                        f.set_capture(true);
                    }
                    2 => {
                        passive = true;
                        f.set_passive(true);
                    }
                    3 => {
                        capture = true;
                        passive = true;
                        f.set_passive(true);
                        f.set_capture(true);
                    }
                    4 => {
                        f.set_capture(true);
                        f.set_capture(false);
                    }
                    _ => {}
                }
                if capture {
                    s.hit("capturing listeners");
                }
                s.t(format!("stream {} for {name}, capture {capture}, passive {passive}", sts.len()));
                sts.push(St { f: Some(Box::pin(f)), name: name.into(), capture, passive, registered: false, latest: None, waker: None });
            }
            1 | 2 => {
                if sts.is_empty() {
                    continue;
                }
                let i = s.pick(sts.len());
                let w = s.pick(pool.len());
                let x = &mut sts[i];
                let Some(f) = &mut x.f else { continue };
                let as_stream = s.flag();
                s.t(format!("poll stream {i} with task {w}"));
                let mut cx = Context::from_waker(&pool[w].w);
                let r: Poll<Event> = if as_stream { f.as_mut().poll_next(&mut cx).map(|e| e.expect("stream ended")) } else { f.as_mut().poll(&mut cx) };
                let want = if x.registered { x.latest.take() } else { None };
                x.registered = true;
                x.waker = Some(w);
                match (r, want) {
                    (Poll::Pending, None) => {}
                    (Poll::Ready(e), Some(k)) => {
                        s.hit("events delivered");
                        ensure!(e.fake_serial() == k, "stream {i} yielded an event that is not the most recent one")
                    }
                    (Poll::Ready(_), None) => return Err(format!("stream {i} yielded an event twice or one it should not have seen")),
                    (Poll::Pending, Some(_)) => return Err(format!("stream {i} is pending although an event came since its last poll")),
                }
            }
            3 => {
                let name = names[s.pick(2)];
                let ev = Event::new(name).unwrap();
                s.t(format!("dispatch {name}"));
                for p in &pool {
                    p.take();
                }
                target.dispatch_event(&ev).unwrap();
                for (i, x) in sts.iter_mut().enumerate() {
                    if x.f.is_some() && x.registered && x.name == name {
                        if x.latest.is_some() {
                            s.hit("event replaced before a poll");
                        }
                        x.latest = Some(ev.fake_serial());
                        let w = x.waker.unwrap();
                        ensure!(pool[w].n() > 0, "the task waiting on stream {i} was not woken by an event");
                    }
                }
            }
            _ => {
                if sts.is_empty() {
                    continue;
                }
                let i = s.pick(sts.len());
                s.t(format!("drop stream {i}"));
                sts[i].f = None;
            }
        }
        check(&sts)?;
    }
    for x in &mut sts {
        x.f = None;
    }
    check(&sts)
}

pub fn u03(s: &mut Src) -> Result<(), String> {
    let d: Dropdown<i32> = Dropdown::new();
    let sel: web_sys::HtmlSelectElement = {
        let r: &web_sys::HtmlSelectElement = &d;
        r.clone()
    };
    let mut opts: Vec<(i32, String, usize)> = vec![]; // key, text, element
    let pool = [4, 6, 10, 30][s.size];
    let steps = s.steps(3, [0, 10, 20, 30][s.size]);
    for _ in 0..steps {
        match s.pick(4) {
            0 | 1 => {
                let n = s.pick(pool + 1);
                let keys: Vec<i32> = s.shuffle(pool)[..n].iter().map(|x| *x as i32).collect();
                let gen = s.pick(3);
                let list: Vec<(i32, String)> = keys.iter().map(|k| (*k, format!("t{k}v{gen}"))).collect();
                s.t(format!("options {keys:?}"));
                let before = d.value();
                d.update_options(list.iter().map(|(k, t)| (*k, t.as_str())));
                let kids: Vec<web_sys::Node> = sel.child_list();
                let texts: Vec<String> = kids.iter().map(|k| k.text_content().unwrap()).collect();
                let want: Vec<String> = list.iter().map(|x| x.1.clone()).collect();
                ensure!(texts == want, "the options shown are {texts:?}, should be {want:?}");
                let mut now = vec![];
                for ((k, t), n) in list.iter().zip(&kids) {
                    if let Some(o) = opts.iter().find(|o| o.0 == *k) {
                        ensure!(o.2 == n.fake_id(), "the element of option {k} was not re-used");
                    } else {
                        ensure!(!opts.iter().any(|o| o.2 == n.fake_id()), "option {k} took over the element of another option");
                    }
                    now.push((*k, t.clone(), n.fake_id()));
                }
                if opts.iter().any(|o| !keys.contains(&o.0)) && opts.iter().any(|o| keys.contains(&o.0)) {
                    s.hit("some options stay, some go");
                }
                opts = now;
                match before.filter(|b| keys.contains(b)) {
                    Some(b) => {
                        s.hit("selection kept");
                        ensure!(d.value() == Some(b), "value was {b} before and is {:?} after an update that still offers it", d.value());
                        let i = sel.selected_index();
                        ensure!(i >= 0 && keys[i as usize] == b, "the selected element is number {i}, which is not option {b}");
                    }
                    None => ensure!(sel.selected_index() == -1, "element number {} is selected although nothing should be", sel.selected_index()),
                }
            }
            2 => {
                let v = if s.rare(4) { None } else { Some(s.pick(pool + 1) as i32) };
                s.t(format!("set value {v:?}"));
                d.set_value(v);
                match v.and_then(|v| opts.iter().position(|o| o.0 == v)) {
                    Some(i) => {
                        ensure!(sel.selected_index() == i as i32, "element number {} is selected, should be {i}", sel.selected_index());
                        ensure!(d.value() == v, "value() is {:?} after selecting {v:?}", d.value());
                    }
                    None => {
                        s.hit("deselected");
                        ensure!(sel.selected_index() == -1, "element number {} is selected after deselecting", sel.selected_index());
                        ensure!(d.value().is_none(), "value() is {:?} after deselecting", d.value());
                    }
                }
            }
            _ => {
                if opts.is_empty() {
                    continue;
                }
                let i = s.pick(opts.len());
                s.t(format!("the user selects number {i}"));
                sel.set_selected_index(i as i32);
                ensure!(d.value() == Some(opts[i].0), "value() is {:?}, the user selected {}", d.value(), opts[i].0);
            }
        }
        for k in 0..pool as i32 {
            ensure!(d.contains_key(&k) == opts.iter().any(|o| o.0 == k), "contains_key({k}) is wrong");
        }
    }
    Ok(())
}
