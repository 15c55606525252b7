//! Stand-in for wasm-bindgen on the host: JavaScript values live on the Rust side.
use std::cell::RefCell;
use std::rc::Rc;
pub use sim_wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug)]
pub enum Inner {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    /// The flag tells a view of the module's own memory
    Bytes(Rc<RefCell<Vec<u8>>>, bool),
    List(Rc<RefCell<Vec<JsValue>>>),
}
#[derive(Clone, Debug)]
pub struct JsValue(pub Inner);

impl JsValue {
    pub const NULL: JsValue = JsValue(Inner::Null);
    pub const UNDEFINED: JsValue = JsValue(Inner::Undefined);
    pub const TRUE: JsValue = JsValue(Inner::Bool(true));
    pub const FALSE: JsValue = JsValue(Inner::Bool(false));
    pub fn null() -> JsValue {
        JsValue(Inner::Null)
    }
    pub fn undefined() -> JsValue {
        JsValue(Inner::Undefined)
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Inner::Text(s.into()))
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Inner::Number(n))
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue(Inner::Bool(b))
    }
    pub fn as_f64(&self) -> Option<f64> {
        if let Inner::Number(n) = self.0 { Some(n) } else { None }
    }
    pub fn as_string(&self) -> Option<String> {
        if let Inner::Text(s) = &self.0 { Some(s.clone()) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let Inner::Bool(b) = self.0 { Some(b) } else { None }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Inner::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Inner::Null)
    }
    /// What JavaScript stores of this value in an array of unsigned bytes
    pub fn to_byte(&self) -> u8 {
        match &self.0 {
            Inner::Number(n) if n.is_finite() => (n.trunc() as i64) as u8,
            Inner::Bool(true) => 1,
            _ => 0,
        }
    }
}
macro_rules! numbers { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue(Inner::Number(n as f64)) } })* } }
numbers!(u8 i8 u16 i16 u32 i32 f32 f64 u64 i64 usize isize);
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue(Inner::Bool(b))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue(Inner::Text(s.into()))
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue(Inner::Text(s))
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue(Inner::Text(s.clone()))
    }
}
impl From<&JsValue> for JsValue {
    fn from(s: &JsValue) -> JsValue {
        s.clone()
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub type JsError = String;
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("{:?}", v)
}
pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn from_value(v: JsValue) -> Self;
    fn unchecked_into<T: JsCast>(self) -> T {
        T::from_value(self.into())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        Ok(T::from_value(self.into()))
    }
}
impl JsCast for JsValue {
    fn from_value(v: JsValue) -> JsValue {
        v
    }
}
pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}
pub struct Clamped<T>(pub T);
