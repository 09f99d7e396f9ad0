//! In-memory document: stand-in for the parts of web-sys that async_ui uses.
//! Follows the DOM standard for tree mutation (pre-insert, remove, fragments),
//! event listener registration (identity of type + callback + capture),
//! timers and single-choice selects. Hierarchy violations are errors, as in a browser.
#![allow(non_upper_case_globals)]
use std::cell::{Cell, RefCell};
use std::fmt;
use std::ops::Deref;
use wasm_bindgen::{JsCast, JsRepr, JsValue};

pub struct Listener {
    pub name: String,
    pub callback: JsValue,
    pub capture: bool,
    pub passive: bool,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Kind {
    Element(String),
    Text,
    Comment,
    Fragment,
    Document,
    Target,
}

pub struct NodeData {
    pub kind: Kind,
    pub id: usize,
    pub parent: RefCell<Option<std::rc::Weak<wasm_bindgen::Obj>>>,
    pub children: RefCell<Vec<JsValue>>,
    pub listeners: RefCell<Vec<Listener>>,
    pub added: Cell<usize>,
    pub data: RefCell<String>,
    pub attrs: RefCell<Vec<(String, String)>>,
    pub classes: RefCell<Vec<String>>,
    pub selected: Cell<bool>,
    pub rect: Cell<(f64, f64, f64, f64)>,
}

pub struct EventData {
    pub name: String,
    pub serial: usize,
    pub prevented: Cell<bool>,
}

thread_local! {
    static NEXT_ID: Cell<usize> = Cell::new(1);
    static TIMERS: RefCell<Vec<JsValue>> = RefCell::new(Vec::new());
    static WINDOW: Window = Window(new_node(Kind::Target));
    static DOCUMENT: Document = Document(new_node(Kind::Document));
    static BODY: HtmlElement = {
        let e = HtmlElement(new_node(Kind::Element("body".into())));
        DOCUMENT.with(|d| d.append_child(&e)).unwrap();
        e
    };
    /// Keeps every node of the thread alive, as a browser does for nodes that reach each other.
    static NODES: RefCell<Vec<JsValue>> = RefCell::new(Vec::new());
    static MUTATIONS: Cell<usize> = Cell::new(0);
}

fn new_node(kind: Kind) -> JsValue {
    let n = JsValue::from_host(NodeData {
        kind,
        id: NEXT_ID.with(|c| c.replace(c.get() + 1)),
        parent: RefCell::new(None),
        children: RefCell::new(Vec::new()),
        listeners: RefCell::new(Vec::new()),
        added: Cell::new(0),
        data: RefCell::new(String::new()),
        attrs: RefCell::new(Vec::new()),
        classes: RefCell::new(Vec::new()),
        selected: Cell::new(false),
        rect: Cell::new((0., 0., 0., 0.)),
    });
    NODES.with(|v| v.borrow_mut().push(n.clone()));
    n
}

macro_rules! web_type {
    ($n:ident : $p:ident $(, $a:ident)*) => {
        #[derive(Clone, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $n(JsValue);
        unsafe impl JsRepr for $n {}
        impl JsCast for $n {}
        impl fmt::Debug for $n {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($n))
            }
        }
        impl Deref for $n {
            type Target = $p;
            fn deref(&self) -> &$p {
                self.0.unchecked_ref_any()
            }
        }
        impl AsRef<$n> for $n { fn as_ref(&self) -> &$n { self } }
        impl AsRef<JsValue> for $n { fn as_ref(&self) -> &JsValue { &self.0 } }
        impl From<$n> for JsValue { fn from(v: $n) -> JsValue { v.0 } }
        impl From<JsValue> for $n { fn from(v: JsValue) -> $n { $n(v) } }
        web_type!(@anc $n $p $($a)*);
    };
    (@anc $n:ident $($a:ident)*) => {
        $(web_type!(@one $n $a);)*
    };
    (@one $n:ident JsValue) => {};
    (@one $n:ident $a:ident) => {
        impl AsRef<$a> for $n { fn as_ref(&self) -> &$a { self.0.unchecked_ref_any() } }
        impl From<$n> for $a { fn from(v: $n) -> $a { $a(v.0) } }
    };
}

trait RefAny {
    fn unchecked_ref_any<T: JsRepr>(&self) -> &T;
}
impl RefAny for JsValue {
    fn unchecked_ref_any<T: JsRepr>(&self) -> &T {
        unsafe { &*(self as *const JsValue as *const T) }
    }
}

web_type!(EventTarget: JsValue);
web_type!(Node: EventTarget);
web_type!(Element: Node, EventTarget);
web_type!(HtmlElement: Element, Node, EventTarget);
web_type!(CharacterData: Node, EventTarget);
web_type!(Text: CharacterData, Node, EventTarget);
web_type!(Comment: CharacterData, Node, EventTarget);
web_type!(DocumentFragment: Node, EventTarget);
web_type!(Document: Node, EventTarget);
web_type!(Window: EventTarget);
web_type!(HtmlMediaElement: HtmlElement, Element, Node, EventTarget);
web_type!(HtmlAudioElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget);
web_type!(HtmlVideoElement: HtmlMediaElement, HtmlElement, Element, Node, EventTarget);
include!("elements.rs");

web_type!(Event: JsValue);
web_type!(UiEvent: Event);
web_type!(MouseEvent: UiEvent, Event);
web_type!(WheelEvent: MouseEvent, UiEvent, Event);
web_type!(DragEvent: MouseEvent, UiEvent, Event);
web_type!(KeyboardEvent: UiEvent, Event);
web_type!(FocusEvent: UiEvent, Event);
web_type!(InputEvent: UiEvent, Event);
web_type!(CompositionEvent: UiEvent, Event);
web_type!(TouchEvent: UiEvent, Event);
web_type!(PointerEvent: MouseEvent, UiEvent, Event);
web_type!(AnimationEvent: Event);
web_type!(TransitionEvent: Event);
web_type!(ClipboardEvent: Event);

impl Event {
    pub fn new(name: &str) -> Result<Event, JsValue> {
        Ok(Event(JsValue::from_host(EventData {
            name: name.to_owned(),
            serial: NEXT_ID.with(|c| c.replace(c.get() + 1)),
            prevented: Cell::new(false),
        })))
    }
    pub fn type_(&self) -> String {
        self.0.host::<EventData>().unwrap().name.clone()
    }
    pub fn prevent_default(&self) {
        self.0.host::<EventData>().unwrap().prevented.set(true)
    }
    pub fn fake_serial(&self) -> usize {
        self.0.host::<EventData>().unwrap().serial
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct AddEventListenerOptions {
    pub f_capture: bool,
    pub f_passive: bool,
    pub f_once: bool,
}
impl AddEventListenerOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn capture(&mut self, v: bool) -> &mut Self {
        self.f_capture = v;
        self
    }
    pub fn passive(&mut self, v: bool) -> &mut Self {
        self.f_passive = v;
        self
    }
    pub fn once(&mut self, v: bool) -> &mut Self {
        self.f_once = v;
        self
    }
    pub fn set_capture(&self, _v: bool) {
        unimplemented!()
    }
    pub fn get_capture(&self) -> Option<bool> {
        Some(self.f_capture)
    }
    pub fn get_passive(&self) -> Option<bool> {
        Some(self.f_passive)
    }
}

impl EventTarget {
    pub fn new() -> Result<EventTarget, JsValue> {
        Ok(EventTarget(new_node(Kind::Target)))
    }
    pub fn nd(&self) -> &NodeData {
        self.0.host::<NodeData>().expect("not a node")
    }
    fn add(&self, name: &str, cb: &js_sys::Function, capture: bool, passive: bool) {
        let nd = self.nd();
        let cb: &JsValue = cb.as_ref();
        let mut l = nd.listeners.borrow_mut();
        if l.iter().any(|x| x.name == name && x.callback == *cb && x.capture == capture) {
            return;
        }
        nd.added.set(nd.added.get() + 1);
        l.push(Listener { name: name.into(), callback: cb.clone(), capture, passive });
    }
    fn del(&self, name: &str, cb: &js_sys::Function, capture: bool) {
        let cb: &JsValue = cb.as_ref();
        self.nd()
            .listeners
            .borrow_mut()
            .retain(|x| !(x.name == name && x.callback == *cb && x.capture == capture));
    }
    pub fn add_event_listener_with_callback(&self, name: &str, cb: &js_sys::Function) -> Result<(), JsValue> {
        self.add(name, cb, false, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_bool(&self, name: &str, cb: &js_sys::Function, capture: bool) -> Result<(), JsValue> {
        self.add(name, cb, capture, false);
        Ok(())
    }
    pub fn add_event_listener_with_callback_and_add_event_listener_options(
        &self,
        name: &str,
        cb: &js_sys::Function,
        o: &AddEventListenerOptions,
    ) -> Result<(), JsValue> {
        self.add(name, cb, o.f_capture, o.f_passive);
        Ok(())
    }
    pub fn remove_event_listener_with_callback(&self, name: &str, cb: &js_sys::Function) -> Result<(), JsValue> {
        self.del(name, cb, false);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_bool(&self, name: &str, cb: &js_sys::Function, capture: bool) -> Result<(), JsValue> {
        self.del(name, cb, capture);
        Ok(())
    }
    pub fn remove_event_listener_with_callback_and_event_listener_options(
        &self,
        name: &str,
        cb: &js_sys::Function,
        o: &EventListenerOptions,
    ) -> Result<(), JsValue> {
        self.del(name, cb, o.f_capture);
        Ok(())
    }
    pub fn dispatch_event(&self, ev: &Event) -> Result<bool, JsValue> {
        let name = ev.type_();
        let cbs: Vec<JsValue> = self
            .nd()
            .listeners
            .borrow()
            .iter()
            .filter(|l| l.name == name)
            .map(|l| l.callback.clone())
            .collect();
        for cb in cbs {
            cb.call(ev.clone().into());
        }
        Ok(true)
    }
    // ---- inspection used by harnesses only
    pub fn fake_listeners(&self) -> Vec<(String, bool, bool)> {
        self.nd().listeners.borrow().iter().map(|l| (l.name.clone(), l.capture, l.passive)).collect()
    }
    pub fn fake_added(&self) -> usize {
        self.nd().added.get()
    }
}

#[derive(Clone, Debug, Default)]
pub struct EventListenerOptions {
    pub f_capture: bool,
}
impl EventListenerOptions {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn capture(&mut self, v: bool) -> &mut Self {
        self.f_capture = v;
        self
    }
}

fn err(m: &str) -> JsValue {
    JsValue::from_str(m)
}

impl Node {
    fn parent_js(&self) -> Option<JsValue> {
        self.nd().parent.borrow().as_ref().and_then(|w| w.upgrade()).map(JsValue)
    }
    pub fn parent_node(&self) -> Option<Node> {
        self.parent_js().map(Node)
    }
    pub fn parent_element(&self) -> Option<Element> {
        self.parent_js().map(Element)
    }
    pub fn child_list(&self) -> Vec<Node> {
        self.nd().children.borrow().iter().cloned().map(Node).collect()
    }
    pub fn fake_id(&self) -> usize {
        self.nd().id
    }
    pub fn fake_kind(&self) -> Kind {
        self.nd().kind.clone()
    }
    fn index_in_parent(&self) -> Option<(Node, usize)> {
        let p = self.parent_node()?;
        let i = p.nd().children.borrow().iter().position(|c| c.same(&self.0))?;
        Some((p, i))
    }
    pub fn next_sibling(&self) -> Option<Node> {
        let (p, i) = self.index_in_parent()?;
        let r = p.nd().children.borrow().get(i + 1).cloned().map(Node);
        r
    }
    pub fn previous_sibling(&self) -> Option<Node> {
        let (p, i) = self.index_in_parent()?;
        let r = if i == 0 { None } else { p.nd().children.borrow().get(i - 1).cloned().map(Node) };
        r
    }
    pub fn first_child(&self) -> Option<Node> {
        self.nd().children.borrow().first().cloned().map(Node)
    }
    pub fn last_child(&self) -> Option<Node> {
        self.nd().children.borrow().last().cloned().map(Node)
    }
    pub fn has_child_nodes(&self) -> bool {
        !self.nd().children.borrow().is_empty()
    }
    pub fn is_same_node(&self, o: Option<&Node>) -> bool {
        o.is_some_and(|o| o.0.same(&self.0))
    }
    pub fn is_connected(&self) -> bool {
        let mut n = self.clone();
        loop {
            if n.nd().kind == Kind::Document {
                return true;
            }
            match n.parent_node() {
                Some(p) => n = p,
                None => return false,
            }
        }
    }
    pub fn contains(&self, o: Option<&Node>) -> bool {
        let mut n = o.cloned();
        while let Some(x) = n {
            if x.0.same(&self.0) {
                return true;
            }
            n = x.parent_node();
        }
        false
    }
    fn detach(&self) {
        if let Some((p, i)) = self.index_in_parent() {
            p.nd().children.borrow_mut().remove(i);
            *self.nd().parent.borrow_mut() = None;
            MUTATIONS.with(|m| m.set(m.get() + 1));
            select_reset(&p);
        }
    }
    pub fn insert_before(&self, node: &Node, reference: Option<&Node>) -> Result<Node, JsValue> {
        if node.contains(Some(self)) {
            return Err(err("HierarchyRequestError"));
        }
        match self.nd().kind {
            Kind::Element(_) | Kind::Fragment | Kind::Document => {}
            _ => return Err(err("HierarchyRequestError: not a container")),
        }
        let mut reference = reference.cloned();
        if let Some(r) = &reference {
            if !r.parent_node().is_some_and(|p| p.0.same(&self.0)) {
                return Err(err("NotFoundError: reference is not a child of this node"));
            }
            if r.0.same(&node.0) {
                reference = r.next_sibling();
            }
        }
        let nodes: Vec<Node> = if node.nd().kind == Kind::Fragment { node.child_list() } else { vec![node.clone()] };
        for n in &nodes {
            n.detach();
        }
        for n in &nodes {
            let i = match &reference {
                Some(r) => self.nd().children.borrow().iter().position(|c| c.same(&r.0)).unwrap(),
                None => self.nd().children.borrow().len(),
            };
            self.nd().children.borrow_mut().insert(i, n.0.clone());
            *n.nd().parent.borrow_mut() = Some(std::rc::Rc::downgrade(&self.0 .0));
            MUTATIONS.with(|m| m.set(m.get() + 1));
        }
        if nodes.iter().any(|n| n.nd().selected.get()) {
            let last = nodes.iter().rev().find(|n| n.nd().selected.get()).unwrap().clone();
            if is_select(self) {
                for c in self.child_list() {
                    c.nd().selected.set(c.0.same(&last.0));
                }
            }
        }
        select_reset(self);
        Ok(node.clone())
    }
    pub fn append_child(&self, node: &Node) -> Result<Node, JsValue> {
        self.insert_before(node, None)
    }
    pub fn remove_child(&self, node: &Node) -> Result<Node, JsValue> {
        if !node.parent_node().is_some_and(|p| p.0.same(&self.0)) {
            return Err(err("NotFoundError: node to remove is not a child of this node"));
        }
        node.detach();
        Ok(node.clone())
    }
    pub fn replace_child(&self, new: &Node, old: &Node) -> Result<Node, JsValue> {
        self.insert_before(new, Some(old))?;
        self.remove_child(old)
    }
    pub fn set_text_content(&self, t: Option<&str>) {
        match self.nd().kind {
            Kind::Text | Kind::Comment => *self.nd().data.borrow_mut() = t.unwrap_or("").into(),
            _ => {
                for c in self.child_list() {
                    c.detach();
                }
                if let Some(t) = t.filter(|t| !t.is_empty()) {
                    let n = Node(new_node(Kind::Text));
                    *n.nd().data.borrow_mut() = t.into();
                    self.append_child(&n).unwrap();
                }
            }
        }
    }
    pub fn text_content(&self) -> Option<String> {
        Some(match self.nd().kind {
            Kind::Text | Kind::Comment => self.nd().data.borrow().clone(),
            _ => self
                .child_list()
                .iter()
                .filter(|c| c.nd().kind != Kind::Comment)
                .map(|c| c.text_content().unwrap())
                .collect(),
        })
    }
    pub fn node_name(&self) -> String {
        match &self.nd().kind {
            Kind::Element(t) => t.to_uppercase(),
            Kind::Text => "#text".into(),
            Kind::Comment => "#comment".into(),
            Kind::Fragment => "#document-fragment".into(),
            Kind::Document => "#document".into(),
            Kind::Target => "?".into(),
        }
    }
}

impl CharacterData {
    pub fn data(&self) -> String {
        self.nd().data.borrow().clone()
    }
    pub fn set_data(&self, s: &str) {
        *self.nd().data.borrow_mut() = s.to_owned();
    }
}
impl Text {
    pub fn new() -> Result<Text, JsValue> {
        Ok(Text(new_node(Kind::Text)))
    }
}
impl Comment {
    pub fn new() -> Result<Comment, JsValue> {
        Ok(Comment(new_node(Kind::Comment)))
    }
}
impl DocumentFragment {
    pub fn new() -> Result<DocumentFragment, JsValue> {
        Ok(DocumentFragment(new_node(Kind::Fragment)))
    }
}
impl Document {
    pub fn body(&self) -> Option<HtmlElement> {
        Some(BODY.with(Clone::clone))
    }
    pub fn create_element(&self, tag: &str) -> Result<Element, JsValue> {
        Ok(Element(new_node(Kind::Element(tag.to_lowercase()))))
    }
    pub fn create_text_node(&self, s: &str) -> Text {
        let t = Text(new_node(Kind::Text));
        t.set_data(s);
        t
    }
    pub fn create_comment(&self, s: &str) -> Comment {
        let t = Comment(new_node(Kind::Comment));
        t.set_data(s);
        t
    }
    pub fn create_document_fragment(&self) -> DocumentFragment {
        DocumentFragment(new_node(Kind::Fragment))
    }
}
pub fn window() -> Option<Window> {
    Some(WINDOW.with(Clone::clone))
}
impl Window {
    pub fn document(&self) -> Option<Document> {
        Some(DOCUMENT.with(Clone::clone))
    }
    pub fn set_timeout_with_callback(&self, f: &js_sys::Function) -> Result<i32, JsValue> {
        TIMERS.with(|t| t.borrow_mut().push(AsRef::<JsValue>::as_ref(f).clone()));
        Ok(1)
    }
    pub fn set_timeout_with_callback_and_timeout_and_arguments_0(&self, f: &js_sys::Function, _ms: i32) -> Result<i32, JsValue> {
        self.set_timeout_with_callback(f)
    }
    pub fn queue_microtask(&self, f: &js_sys::Function) {
        let _ = self.set_timeout_with_callback(f);
    }
}

/// Harness controls.
pub mod fake {
    use super::*;
    pub fn pending_timers() -> usize {
        TIMERS.with(|t| t.borrow().len())
    }
    /// Fire the oldest timer; false if there is none.
    pub fn fire_timer() -> bool {
        let t = TIMERS.with(|t| {
            let mut t = t.borrow_mut();
            if t.is_empty() {
                None
            } else {
                Some(t.remove(0))
            }
        });
        match t {
            Some(f) => {
                f.call(JsValue::undefined());
                true
            }
            None => false,
        }
    }
    pub fn clear_timers() {
        TIMERS.with(|t| t.borrow_mut().clear())
    }
    pub fn mutations() -> usize {
        MUTATIONS.with(|m| m.get())
    }
    /// Compact rendering of a subtree, comments left out: `div(a b)`; text as its data.
    pub fn show(n: &Node) -> String {
        match &n.nd().kind {
            Kind::Text => n.nd().data.borrow().clone(),
            Kind::Comment => String::new(),
            k => {
                let name = match k {
                    Kind::Element(t) => t.clone(),
                    _ => "#".into(),
                };
                format!("{}({})", name, show_children(n))
            }
        }
    }
    pub fn show_children(n: &Node) -> String {
        n.child_list().iter().map(show).filter(|s| !s.is_empty()).collect::<Vec<_>>().join(" ")
    }
}

impl Element {
    pub fn tag_name(&self) -> String {
        self.node_name()
    }
    pub fn set_attribute(&self, k: &str, v: &str) -> Result<(), JsValue> {
        let mut a = self.nd().attrs.borrow_mut();
        a.retain(|(x, _)| x != k);
        a.push((k.into(), v.into()));
        Ok(())
    }
    pub fn get_attribute(&self, k: &str) -> Option<String> {
        self.nd().attrs.borrow().iter().find(|(x, _)| x == k).map(|(_, v)| v.clone())
    }
    pub fn remove_attribute(&self, k: &str) -> Result<(), JsValue> {
        self.nd().attrs.borrow_mut().retain(|(x, _)| x != k);
        Ok(())
    }
    pub fn id(&self) -> String {
        self.get_attribute("id").unwrap_or_default()
    }
    pub fn set_id(&self, v: &str) {
        let _ = self.set_attribute("id", v);
    }
    pub fn remove(&self) {
        if let Some(p) = self.parent_node() {
            let _ = p.remove_child(self);
        }
    }
    pub fn class_list(&self) -> DomTokenList {
        DomTokenList(self.clone())
    }
    pub fn class_name(&self) -> String {
        self.nd().classes.borrow().join(" ")
    }
    pub fn get_bounding_client_rect(&self) -> DomRect {
        DomRect(self.nd().rect.get())
    }
    pub fn fake_set_rect(&self, top: f64, bottom: f64, left: f64, right: f64) {
        self.nd().rect.set((top, bottom, left, right))
    }
}
impl HtmlElement {
    pub fn style(&self) -> CssStyleDeclaration {
        CssStyleDeclaration(self.clone())
    }
}
pub struct CssStyleDeclaration(HtmlElement);
impl CssStyleDeclaration {
    pub fn set_property(&self, k: &str, v: &str) -> Result<(), JsValue> {
        self.0.set_attribute(&format!("style:{k}"), v)
    }
}
pub struct DomRect((f64, f64, f64, f64));
impl DomRect {
    pub fn top(&self) -> f64 {
        self.0 .0
    }
    pub fn bottom(&self) -> f64 {
        self.0 .1
    }
    pub fn left(&self) -> f64 {
        self.0 .2
    }
    pub fn right(&self) -> f64 {
        self.0 .3
    }
}
pub struct DomTokenList(Element);
impl DomTokenList {
    pub fn add_1(&self, c: &str) -> Result<(), JsValue> {
        let mut l = self.0.nd().classes.borrow_mut();
        if !l.iter().any(|x| x == c) {
            l.push(c.into());
        }
        Ok(())
    }
    pub fn remove_1(&self, c: &str) -> Result<(), JsValue> {
        self.0.nd().classes.borrow_mut().retain(|x| x != c);
        Ok(())
    }
    pub fn add(&self, a: &js_sys::Array) -> Result<(), JsValue> {
        a.to_vec().iter().try_for_each(|v| self.add_1(&v.as_string().unwrap()))
    }
    pub fn remove(&self, a: &js_sys::Array) -> Result<(), JsValue> {
        a.to_vec().iter().try_for_each(|v| self.remove_1(&v.as_string().unwrap()))
    }
    pub fn toggle_with_force(&self, c: &str, f: bool) -> Result<bool, JsValue> {
        if f {
            self.add_1(c)?
        } else {
            self.remove_1(c)?
        }
        Ok(f)
    }
}

impl HtmlInputElement {
    pub fn set_type(&self, t: &str) {
        let _ = self.set_attribute("type", t);
    }
    pub fn value(&self) -> String {
        self.nd().data.borrow().clone()
    }
    pub fn set_value(&self, v: &str) {
        *self.nd().data.borrow_mut() = v.into();
    }
}

// ---- single-choice <select>
fn is_select(n: &Node) -> bool {
    n.nd().kind == Kind::Element("select".into())
}
fn is_option(n: &Node) -> bool {
    n.nd().kind == Kind::Element("option".into())
}
fn select_options(n: &Node) -> Vec<Node> {
    n.child_list().into_iter().filter(is_option).collect()
}
/// The "selectedness setting algorithm" for a select with display size 1.
fn select_reset(n: &Node) {
    if is_select(n) {
        let o = select_options(n);
        if !o.iter().any(|x| x.nd().selected.get()) {
            if let Some(f) = o.first() {
                f.nd().selected.set(true);
            }
        }
    }
}
impl HtmlOptionElement {
    pub fn set_selected(&self, v: bool) {
        if v {
            if let Some(p) = self.parent_node().filter(is_select) {
                for o in select_options(&p) {
                    o.nd().selected.set(false);
                }
            }
        }
        self.nd().selected.set(v);
        if !v {
            if let Some(p) = self.parent_node() {
                select_reset(&p);
            }
        }
    }
    pub fn selected(&self) -> bool {
        self.nd().selected.get()
    }
    pub fn value(&self) -> String {
        self.get_attribute("value").unwrap_or_else(|| self.text_content().unwrap_or_default())
    }
    pub fn set_value(&self, v: &str) {
        let _ = self.set_attribute("value", v);
    }
    pub fn set_text(&self, v: &str) -> Result<(), JsValue> {
        self.set_text_content(Some(v));
        Ok(())
    }
}
impl HtmlSelectElement {
    pub fn selected_index(&self) -> i32 {
        select_options(self).iter().position(|o| o.nd().selected.get()).map_or(-1, |i| i as i32)
    }
    pub fn set_selected_index(&self, i: i32) {
        for (j, o) in select_options(self).iter().enumerate() {
            o.nd().selected.set(j as i32 == i);
        }
    }
    pub fn set_value(&self, v: &str) {
        let opts = select_options(self);
        let hit = opts.iter().position(|o| JsCast::unchecked_ref::<HtmlOptionElement>(o).value() == v);
        for (j, o) in opts.iter().enumerate() {
            o.nd().selected.set(Some(j) == hit);
        }
    }
    pub fn value(&self) -> String {
        let i = self.selected_index();
        if i < 0 {
            return String::new();
        }
        JsCast::unchecked_ref::<HtmlOptionElement>(&select_options(self)[i as usize]).value()
    }
    pub fn set_disabled(&self, _v: bool) {}
    pub fn length(&self) -> u32 {
        select_options(self).len() as u32
    }
}

pub struct IntersectionObserverInit;
impl IntersectionObserverInit {
    pub fn new() -> Self {
        Self
    }
    pub fn root(&mut self, _r: Option<&Element>) -> &mut Self {
        self
    }
    pub fn root_margin(&mut self, _m: &str) -> &mut Self {
        self
    }
}
impl Default for IntersectionObserverInit {
    fn default() -> Self {
        Self::new()
    }
}
pub struct IntersectionObserver;
impl IntersectionObserver {
    pub fn new_with_options(_f: &js_sys::Function, _o: &IntersectionObserverInit) -> Result<Self, JsValue> {
        Ok(Self)
    }
    pub fn observe(&self, _e: &Element) {}
    pub fn disconnect(&self) {}
}

pub mod console {
    use wasm_bindgen::JsValue;
    pub fn log_1(_a: &JsValue) {}
    pub fn error_1(_a: &JsValue) {}
    pub fn error_2(_a: &JsValue, _b: &JsValue) {}
}
