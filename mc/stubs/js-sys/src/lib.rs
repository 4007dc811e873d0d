//! Stand-in for `js-sys`: what reading option objects takes.
use std::ops::Deref;
use wasm_bindgen::{Js, JsCast, JsValue};

macro_rules! kind {
    ($t:ident, $p:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $t(JsValue);
        impl Deref for $t { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
        impl AsRef<JsValue> for $t { fn as_ref(&self) -> &JsValue { &self.0 } }
        impl From<$t> for JsValue { fn from(o: $t) -> JsValue { o.0 } }
        impl From<JsValue> for $t { fn from(o: JsValue) -> $t { $t(o) } }
        impl JsCast for $t {
            fn instanceof(v: &JsValue) -> bool { matches!(v.0, $p) }
            fn unchecked_from_js(v: JsValue) -> $t { $t(v) }
            fn unchecked_from_js_ref(v: &JsValue) -> &$t {
                // same layout
                unsafe { &*std::ptr::from_ref(v).cast::<$t>() }
            }
        }
    };
}
kind!(Object, Js::Object(_) | Js::Array(_) | Js::Function);
kind!(Array, Js::Array(_));
kind!(JsString, Js::Str(_));
kind!(Number, Js::Number(_));
kind!(Boolean, Js::Bool(_));
kind!(Function, Js::Function);
impl JsString {
    pub fn length(&self) -> u32 { String::from(self).encode_utf16().count() as u32 }
}
impl From<&JsString> for String { fn from(s: &JsString) -> String { s.as_string().unwrap_or_default() } }
impl From<JsString> for String { fn from(s: JsString) -> String { String::from(&s) } }
impl From<&str> for JsString { fn from(s: &str) -> JsString { JsString(JsValue::from_str(s)) } }
impl From<String> for JsString { fn from(s: String) -> JsString { JsString(JsValue::from_str(&s)) } }
impl Number {
    pub fn value_of(&self) -> f64 { self.as_f64().unwrap_or(f64::NAN) }
    pub fn is_integer(v: &JsValue) -> bool { v.as_f64().is_some_and(|n| n.is_finite() && n.trunc() == n) }
    pub fn is_safe_integer(v: &JsValue) -> bool { Number::is_integer(v) && v.as_f64().is_some_and(|n| n.abs() <= 9_007_199_254_740_991.0) }
    pub fn is_finite(v: &JsValue) -> bool { v.as_f64().is_some_and(f64::is_finite) }
    pub fn is_nan(v: &JsValue) -> bool { v.as_f64().is_some_and(f64::is_nan) }
}
impl Boolean {
    pub fn value_of(&self) -> bool { self.as_bool().unwrap_or(false) }
}
impl Object {
    pub fn try_from(v: &JsValue) -> Option<&Object> { v.dyn_ref::<Object>() }
    pub fn new() -> Object { Object(JsValue::mock_object(vec![])) }
    pub fn keys(o: &Object) -> Array {
        match &o.0.0 {
            Js::Object(p) => Array(JsValue::mock_array(p.iter().map(|x| JsValue::from_str(&x.0)).collect())),
            _ => Array(JsValue::mock_array(vec![])),
        }
    }
    pub fn has_own_property(&self, k: &JsValue) -> bool { Reflect::has(self, k).unwrap_or(false) }
}
impl Array {
    pub fn is_array(v: &JsValue) -> bool { v.is_array() }
    pub fn length(&self) -> u32 { if let Js::Array(a) = &self.0.0 { a.len() as u32 } else { 0 } }
    pub fn get(&self, i: u32) -> JsValue { if let Js::Array(a) = &self.0.0 { a.get(i as usize).cloned().unwrap_or_default() } else { JsValue::UNDEFINED } }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> { if let Js::Array(a) = &self.0.0 { a.to_vec().into_iter() } else { vec![].into_iter() } }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> { target.mock_get(key) }
    pub fn own_keys(target: &JsValue) -> Result<Array, JsValue> { Ok(Object::keys(&Object(target.clone()))) }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        match &target.0 {
            Js::Object(p) => Ok(p.iter().any(|x| Some(&x.0) == key.as_string().as_ref())),
            Js::Array(_) => Ok(!target.mock_get(key)?.is_undefined()),
            Js::Function => Ok(false),
            _ => Err(JsValue::from_str("Reflect.has called on non-object")),
        }
    }
}
