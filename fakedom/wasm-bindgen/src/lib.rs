//! In-memory stand-in for the parts of wasm-bindgen that async_ui uses.
//! A JsValue is a reference-counted object; equality is identity.
use std::any::Any;
use std::fmt;
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;

pub enum Obj {
    Undefined,
    Str(String),
    Func(Box<dyn Fn(JsValue)>),
    Host(Box<dyn Any>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue(pub Rc<Obj>);

impl JsValue {
    pub fn undefined() -> Self {
        JsValue(Rc::new(Obj::Undefined))
    }
    pub fn from_str(s: &str) -> Self {
        JsValue(Rc::new(Obj::Str(s.to_owned())))
    }
    pub fn from_host<T: Any>(t: T) -> Self {
        JsValue(Rc::new(Obj::Host(Box::new(t))))
    }
    pub fn host<T: Any>(&self) -> Option<&T> {
        match &*self.0 {
            Obj::Host(b) => b.downcast_ref(),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &*self.0 {
            Obj::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn call(&self, arg: JsValue) {
        match &*self.0 {
            Obj::Func(f) => f(arg),
            _ => panic!("not a function"),
        }
    }
    pub fn same(&self, o: &JsValue) -> bool {
        Rc::ptr_eq(&self.0, &o.0)
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &*self.0 {
            Obj::Undefined => f.write_str("undefined"),
            Obj::Str(s) => write!(f, "{s:?}"),
            Obj::Func(_) => f.write_str("function"),
            Obj::Host(_) => f.write_str("object"),
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        self.same(o)
    }
}
impl Eq for JsValue {}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

/// # Safety
/// Implementors are `repr(transparent)` over [JsValue].
pub unsafe trait JsRepr: Sized {}
unsafe impl JsRepr for JsValue {}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + JsRepr {
    fn unchecked_into<T: JsCast>(self) -> T {
        let v: JsValue = self.into();
        unsafe { std::mem::transmute_copy(&std::mem::ManuallyDrop::new(v)) }
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        let v: &JsValue = self.as_ref();
        unsafe { &*(v as *const JsValue as *const T) }
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        Ok(self.unchecked_into())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        Some(self.unchecked_ref())
    }
}
impl JsCast for JsValue {}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    #[track_caller]
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    #[track_caller]
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}

pub trait IntoWasmClosure<T: ?Sized> {
    fn into_func(self) -> Box<dyn Fn(JsValue)>;
}
impl<F: Fn() + 'static> IntoWasmClosure<dyn Fn()> for F {
    fn into_func(self) -> Box<dyn Fn(JsValue)> {
        Box::new(move |_| self())
    }
}
impl<F: Fn(A) + 'static, A: JsCast + 'static> IntoWasmClosure<dyn Fn(A)> for F {
    fn into_func(self) -> Box<dyn Fn(JsValue)> {
        Box::new(move |v| self(v.unchecked_into()))
    }
}
impl<F: FnMut() + 'static> IntoWasmClosure<dyn FnMut()> for F {
    fn into_func(self) -> Box<dyn Fn(JsValue)> {
        let c = std::cell::RefCell::new(self);
        Box::new(move |_| (c.borrow_mut())())
    }
}
impl<F: FnMut(A) + 'static, A: JsCast + 'static> IntoWasmClosure<dyn FnMut(A)> for F {
    fn into_func(self) -> Box<dyn Fn(JsValue)> {
        let c = std::cell::RefCell::new(self);
        Box::new(move |v| (c.borrow_mut())(v.unchecked_into()))
    }
}

pub struct Closure<T: ?Sized> {
    js: JsValue,
    _p: PhantomData<Box<T>>,
}
impl<T: ?Sized> Closure<T> {
    pub fn new<F: IntoWasmClosure<T> + 'static>(f: F) -> Self {
        Self {
            js: JsValue(Rc::new(Obj::Func(f.into_func()))),
            _p: PhantomData,
        }
    }
    pub fn forget(self) {}
}
impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}
impl<T: ?Sized> Deref for Closure<T> {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.js
    }
}

pub mod closure {
    pub use super::Closure;
}
pub mod prelude {
    pub use super::{closure::Closure, JsCast, JsValue, UnwrapThrowExt};
}
