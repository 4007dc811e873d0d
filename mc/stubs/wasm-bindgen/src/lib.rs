//! Stand-in for `wasm-bindgen` that runs natively: JavaScript values as plain Rust data.
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug, Default)]
pub enum Js {
    #[default]
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(Rc<str>),
    /// Property list; a property without a value throws when it is read.
    Object(Rc<Vec<(String, Option<JsValue>)>>),
    Array(Rc<Vec<JsValue>>),
    Function,
}
#[derive(Clone, Debug, Default)]
pub struct JsValue(pub Js);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Js::Undefined);
    pub const NULL: JsValue = JsValue(Js::Null);
    pub const TRUE: JsValue = JsValue(Js::Bool(true));
    pub const FALSE: JsValue = JsValue(Js::Bool(false));
    pub fn undefined() -> JsValue { JsValue(Js::Undefined) }
    pub fn null() -> JsValue { JsValue(Js::Null) }
    pub fn from_str(s: &str) -> JsValue { JsValue(Js::Str(s.into())) }
    pub fn from_f64(n: f64) -> JsValue { JsValue(Js::Number(n)) }
    pub fn from_bool(b: bool) -> JsValue { JsValue(Js::Bool(b)) }
    pub fn mock_object(p: Vec<(String, Option<JsValue>)>) -> JsValue { JsValue(Js::Object(Rc::new(p))) }
    pub fn mock_array(p: Vec<JsValue>) -> JsValue { JsValue(Js::Array(Rc::new(p))) }
    pub fn is_undefined(&self) -> bool { matches!(self.0, Js::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self.0, Js::Null) }
    pub fn is_null_or_undefined(&self) -> bool { self.is_null() || self.is_undefined() }
    pub fn is_object(&self) -> bool { matches!(self.0, Js::Object(_) | Js::Array(_)) }
    pub fn is_array(&self) -> bool { matches!(self.0, Js::Array(_)) }
    pub fn is_string(&self) -> bool { matches!(self.0, Js::Str(_)) }
    pub fn is_function(&self) -> bool { matches!(self.0, Js::Function) }
    pub fn is_symbol(&self) -> bool { false }
    pub fn is_bigint(&self) -> bool { false }
    pub fn is_truthy(&self) -> bool { !self.is_falsy() }
    pub fn is_falsy(&self) -> bool {
        match &self.0 {
            Js::Undefined | Js::Null => true,
            Js::Bool(b) => !b,
            Js::Number(n) => *n == 0.0 || n.is_nan(),
            Js::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match self.0 {
            Js::Undefined => "undefined",
            Js::Bool(_) => "boolean",
            Js::Number(_) => "number",
            Js::Str(_) => "string",
            Js::Function => "function",
            _ => "object",
        })
    }
    pub fn as_f64(&self) -> Option<f64> { if let Js::Number(n) = self.0 { Some(n) } else { None } }
    pub fn as_bool(&self) -> Option<bool> { if let Js::Bool(n) = self.0 { Some(n) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let Js::Str(s) = &self.0 { Some(s.to_string()) } else { None } }
    /// Reads a property; `Err` when the target is no object or the getter throws.
    pub fn mock_get(&self, key: &JsValue) -> Result<JsValue, JsValue> {
        let k = match &key.0 {
            Js::Str(s) => s.to_string(),
            Js::Number(n) => n.to_string(),
            _ => String::new(),
        };
        match &self.0 {
            Js::Object(p) => match p.iter().find(|x| x.0 == k) {
                Some((_, Some(v))) => Ok(v.clone()),
                Some((_, None)) => Err(JsValue::from_str("getter threw")),
                None => Ok(JsValue::UNDEFINED),
            },
            Js::Array(a) => Ok(match k.parse::<usize>() {
                Ok(i) => a.get(i).cloned().unwrap_or_default(),
                Err(_) if k == "length" => JsValue::from_f64(a.len() as f64),
                Err(_) => JsValue::UNDEFINED,
            }),
            Js::Function => Ok(JsValue::UNDEFINED),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (&self.0, &o.0) {
            (Js::Undefined, Js::Undefined) | (Js::Null, Js::Null) => true,
            (Js::Bool(a), Js::Bool(b)) => a == b,
            (Js::Number(a), Js::Number(b)) => a == b,
            (Js::Str(a), Js::Str(b)) => a == b,
            (Js::Object(a), Js::Object(b)) => Rc::ptr_eq(a, b),
            (Js::Array(a), Js::Array(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl PartialEq<str> for JsValue { fn eq(&self, o: &str) -> bool { self.as_string().as_deref() == Some(o) } }
impl PartialEq<&str> for JsValue { fn eq(&self, o: &&str) -> bool { self.as_string().as_deref() == Some(*o) } }
impl PartialEq<bool> for JsValue { fn eq(&self, o: &bool) -> bool { self.as_bool() == Some(*o) } }
impl PartialEq<f64> for JsValue { fn eq(&self, o: &f64) -> bool { self.as_f64() == Some(*o) } }
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue::from_str(s) } }
impl From<&String> for JsValue { fn from(s: &String) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::from_str(&s) } }
impl From<bool> for JsValue { fn from(s: bool) -> JsValue { JsValue::from_bool(s) } }
macro_rules! num { ($($t:ty),*) => {$(impl From<$t> for JsValue { fn from(s: $t) -> JsValue { JsValue::from_f64(s as f64) } })*} }
num!(f64, f32, i8, i16, i32, u8, u16, u32, usize, isize);
impl<T> From<Option<T>> for JsValue where JsValue: From<T> {
    fn from(s: Option<T>) -> JsValue { s.map_or(JsValue::UNDEFINED, JsValue::from) }
}
impl From<JsError> for JsValue { fn from(e: JsError) -> JsValue { JsValue::from_str(&e.0) } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> JsError { JsError(s.to_string()) }
}
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> JsError { JsError(e.to_string()) } }

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
    fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() { Ok(T::unchecked_from_js(self.into())) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(T::unchecked_from_js_ref(self.as_ref())) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T { T::unchecked_from_js(self.into()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { T::unchecked_from_js_ref(self.as_ref()) }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool { true }
    fn unchecked_from_js(v: JsValue) -> JsValue { v }
    fn unchecked_from_js_ref(v: &JsValue) -> &JsValue { v }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, m: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, m: &str) -> T { self.expect(m) }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, m: &str) -> T { self.expect(m) }
}
pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}
