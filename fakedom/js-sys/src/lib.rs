//! In-memory stand-in for the parts of js-sys that async_ui uses.
use std::cell::RefCell;
use std::ops::Deref;
use wasm_bindgen::{JsCast, JsRepr, JsValue};

macro_rules! js_type {
    ($n:ident) => {
        #[derive(Clone, Debug, PartialEq, Eq)]
        #[repr(transparent)]
        pub struct $n(JsValue);
        unsafe impl JsRepr for $n {}
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<$n> for $n {
            fn as_ref(&self) -> &$n {
                self
            }
        }
        impl From<$n> for JsValue {
            fn from(v: $n) -> JsValue {
                v.0
            }
        }
        impl JsCast for $n {}
        impl Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
    };
}
js_type!(Function);
js_type!(Array);
js_type!(Object);

impl Array {
    pub fn new() -> Self {
        Array(JsValue::from_host(RefCell::new(Vec::<JsValue>::new())))
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let c = self.0.host::<RefCell<Vec<JsValue>>>().unwrap();
        c.borrow_mut().push(v.clone());
        c.borrow().len() as u32
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.0.host::<RefCell<Vec<JsValue>>>().unwrap().borrow().clone()
    }
}
impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(it: I) -> Self {
        let a = Array::new();
        it.into_iter().for_each(|v| {
            a.push(v.as_ref());
        });
        a
    }
}
