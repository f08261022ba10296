//! What the browser crate uses of wasm-bindgen, for native builds.
use std::any::Any;
use std::rc::Rc;

/// a JavaScript value
#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Bool(bool),
    Str(String),
    Obj(Rc<dyn Any>),
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            JsValue::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        false
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined => false,
            JsValue::Bool(b) => *b,
            JsValue::Str(s) => !s.is_empty(),
            JsValue::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Obj(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue::Bool(b)
    }
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.into())
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            JsValue::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn obj<T: 'static>(t: T) -> Self {
        JsValue::Obj(Rc::new(t))
    }
    /// what an unchecked cast gives: nothing usable if it is something else
    pub fn get<T: Clone + 'static>(&self) -> Option<T> {
        match self {
            JsValue::Obj(o) => o.downcast_ref::<T>().cloned(),
            _ => None,
        }
    }
}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
            JsValue::Bool(b) => write!(f, "JsValue({})", b),
            JsValue::Str(s) => write!(f, "JsValue({:?})", s),
            JsValue::Obj(_) => write!(f, "JsValue(object)"),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::Str(s.into())
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue::Bool(b)
    }
}

pub trait JsCast: Sized {
    fn unchecked_into<T: From<JsValue>>(self) -> T;
    fn unchecked_ref<T>(&self) -> &T {
        unimplemented!()
    }
    fn dyn_into<T: From<JsValue>>(self) -> Result<T, Self> {
        Ok(self.unchecked_into())
    }
}
impl<S: Into<JsValue>> JsCast for S {
    fn unchecked_into<T: From<JsValue>>(self) -> T {
        T::from(self.into())
    }
}

pub mod prelude {
    pub use crate::{JsCast, JsValue};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
