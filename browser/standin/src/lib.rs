//! What the browser reader (src/rust/wasm) takes from its surroundings, without a browser: the parts it
//! uses of wasm-bindgen, js-sys, serde-wasm-bindgen, console_log and gloo-net, under one roof. A JavaScript
//! value is a tree shared by reference, a fetch is answered by whatever was registered for its URL.
use std::collections::HashMap;
use std::fmt;
use std::sync::{Arc, Mutex};

pub use standin_macro::wasm_bindgen;
pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}

// ---- values
#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    /// integers as serde gave them, so that an oracle can tell them from rounded ones
    Int(serde_json::Number),
    Str(String),
    Arr(Arc<Mutex<Vec<JsValue>>>),
    Obj(Arc<Mutex<Vec<(String, JsValue)>>>),
    Date(f64),
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            JsValue::Arr(a) => write!(f, "JsValue([{} items])", a.lock().unwrap().len()),
            JsValue::Obj(_) => write!(f, "JsValue(Object)"),
            JsValue::Str(s) => write!(f, "JsValue({s:?})"),
            JsValue::Num(n) | JsValue::Date(n) => write!(f, "JsValue({n})"),
            JsValue::Int(n) => write!(f, "JsValue({n})"),
            JsValue::Bool(b) => write!(f, "JsValue({b})"),
            JsValue::Null => write!(f, "JsValue(null)"),
            JsValue::Undefined => write!(f, "JsValue(undefined)"),
        }
    }
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        JsValue::Str(s.to_string())
    }
    pub fn from_f64(n: f64) -> Self {
        JsValue::Num(n)
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue::Bool(b)
    }
    pub fn undefined() -> Self {
        JsValue::Undefined
    }
    pub fn null() -> Self {
        JsValue::Null
    }
    pub fn as_string(&self) -> Option<String> {
        if let JsValue::Str(s) = self { Some(s.clone()) } else { None }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            JsValue::Num(n) => Some(*n),
            JsValue::Int(n) => n.as_f64(),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let JsValue::Bool(b) = self { Some(*b) } else { None }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, JsValue::Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, JsValue::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, JsValue::Obj(_) | JsValue::Arr(_) | JsValue::Date(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self, JsValue::Arr(_))
    }
    pub fn is_function(&self) -> bool {
        false
    }
    pub fn is_bigint(&self) -> bool {
        false
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => false,
            JsValue::Bool(b) => *b,
            JsValue::Num(_) | JsValue::Int(_) => self.as_f64().is_some_and(|n| n != 0.0 && !n.is_nan()),
            JsValue::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn is_null_or_undefined(&self) -> bool {
        matches!(self, JsValue::Undefined | JsValue::Null)
    }
    /// the value as JSON; undefined and what JSON cannot say become null
    pub fn json(&self) -> serde_json::Value {
        use serde_json::Value as V;
        match self {
            JsValue::Undefined | JsValue::Null => V::Null,
            JsValue::Bool(b) => V::Bool(*b),
            JsValue::Num(n) | JsValue::Date(n) => serde_json::Number::from_f64(*n).map(V::Number).unwrap_or(V::Null),
            JsValue::Int(n) => V::Number(n.clone()),
            JsValue::Str(s) => V::String(s.clone()),
            JsValue::Arr(a) => V::Array(a.lock().unwrap().iter().map(|x| x.json()).collect()),
            JsValue::Obj(o) => V::Object(o.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.json())).collect()),
        }
    }
    pub fn from_json(v: &serde_json::Value) -> Self {
        use serde_json::Value as V;
        match v {
            V::Null => JsValue::Null,
            V::Bool(b) => JsValue::Bool(*b),
            V::Number(n) => JsValue::Int(n.clone()),
            V::String(s) => JsValue::Str(s.clone()),
            V::Array(a) => JsValue::Arr(Arc::new(Mutex::new(a.iter().map(JsValue::from_json).collect()))),
            V::Object(o) => JsValue::Obj(Arc::new(Mutex::new(o.iter().map(|(k, v)| (k.clone(), JsValue::from_json(v))).collect()))),
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue::Str(s)
    }
}
impl From<f64> for JsValue {
    fn from(n: f64) -> Self {
        JsValue::Num(n)
    }
}
impl From<bool> for JsValue {
    fn from(n: bool) -> Self {
        JsValue::Bool(n)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        JsValue::Str(s.clone())
    }
}
macro_rules! from_number {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> Self {
                JsValue::Num(n as f64)
            }
        }
    )*};
}
from_number!(f32 i8 i16 i32 u8 u16 u32 isize usize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(x: Option<T>) -> Self {
        x.map_or(JsValue::Undefined, Into::into)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> Self {
        JsError(s.to_string())
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        JsError(e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::Str(format!("Error: {}", e.0))
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn expect_throw(self, message: &str) -> T;
    fn unwrap_throw(self) -> T {
        self.expect_throw("called `unwrap_throw()`")
    }
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub trait JsCast: Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_from_js_ref(v: &JsValue) -> &Self;
}
impl JsValue {
    pub fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self)
    }
    pub fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self)
    }
    pub fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self)
    }
    pub fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        T::instanceof(self).then(|| T::unchecked_from_js_ref(self))
    }
    pub fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self)
    }
    pub fn dyn_into<T: JsCast>(self) -> Result<T, JsValue> {
        if T::instanceof(&self) { Ok(T::unchecked_from_js(self)) } else { Err(self) }
    }
}

// ---- js_sys
macro_rules! class {
    ($name:ident, $is:pat) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $name(JsValue);
        impl std::ops::Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$name> for JsValue {
            fn from(x: $name) -> JsValue {
                x.0
            }
        }
        impl JsCast for $name {
            fn instanceof(v: &JsValue) -> bool {
                matches!(v, $is)
            }
            fn unchecked_from_js(v: JsValue) -> Self {
                $name(v)
            }
            fn unchecked_from_js_ref(v: &JsValue) -> &Self {
                // SAFETY: repr(transparent) over JsValue
                unsafe { &*(v as *const JsValue as *const Self) }
            }
        }
    };
}
class!(Array, JsValue::Arr(_));
class!(Object, JsValue::Obj(_) | JsValue::Arr(_) | JsValue::Date(_));
class!(Date, JsValue::Date(_));

impl Array {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Array(JsValue::Arr(Default::default()))
    }
    /// `Array.from`: a copy of what can be iterated, nothing of what cannot
    pub fn from(v: &JsValue) -> Self {
        let items = match v {
            JsValue::Arr(a) => a.lock().unwrap().clone(),
            JsValue::Str(s) => s.chars().map(|c| JsValue::Str(c.to_string())).collect(),
            _ => vec![],
        };
        Array(JsValue::Arr(Arc::new(Mutex::new(items))))
    }
    pub fn is_array(v: &JsValue) -> bool {
        matches!(v, JsValue::Arr(_))
    }
    fn items(&self) -> &Mutex<Vec<JsValue>> {
        if let JsValue::Arr(a) = &self.0 { a } else { panic!("not an array") }
    }
    pub fn length(&self) -> u32 {
        self.items().lock().unwrap().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().lock().unwrap().get(i as usize).cloned().unwrap_or(JsValue::Undefined)
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        let mut a = self.items().lock().unwrap();
        a.push(v.clone());
        a.len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.items().lock().unwrap().clone().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items().lock().unwrap().clone()
    }
    pub fn new_with_length(n: u32) -> Self {
        Array(JsValue::Arr(Arc::new(Mutex::new(vec![JsValue::Undefined; n as usize]))))
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.items().lock().unwrap();
        if a.len() <= i as usize {
            a.resize(i as usize + 1, JsValue::Undefined);
        }
        a[i as usize] = v;
    }
    pub fn of1(a: &JsValue) -> Self {
        [a.clone()].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Self {
        [a.clone(), b.clone()].into_iter().collect()
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Self {
        [a.clone(), b.clone(), c.clone()].into_iter().collect()
    }
}
impl<T: Into<JsValue>> FromIterator<T> for Array {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Array(JsValue::Arr(Arc::new(Mutex::new(i.into_iter().map(Into::into).collect()))))
    }
}
impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Object(JsValue::Obj(Default::default()))
    }
    pub fn from(v: JsValue) -> Self {
        Object(v)
    }
    fn pairs(&self) -> Vec<(String, JsValue)> {
        if let JsValue::Obj(o) = &self.0 { o.lock().unwrap().clone() } else { vec![] }
    }
    pub fn keys(o: &Object) -> Array {
        o.pairs().into_iter().map(|(k, _)| JsValue::Str(k)).collect()
    }
    pub fn values(o: &Object) -> Array {
        o.pairs().into_iter().map(|(_, v)| v).collect()
    }
    pub fn entries(o: &Object) -> Array {
        o.pairs().into_iter().map(|(k, v)| JsValue::from(Array::of2(&JsValue::Str(k), &v))).collect()
    }
}
impl Date {
    pub fn at(millis: f64) -> JsValue {
        JsValue::Date(millis)
    }
    pub fn value_of(&self) -> f64 {
        self.get_time()
    }
    pub fn get_time(&self) -> f64 {
        if let JsValue::Date(t) = &self.0 { *t } else { f64::NAN }
    }
}
pub struct Reflect;
impl Reflect {
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match target {
            JsValue::Obj(o) => {
                let k = key.as_string().unwrap_or_default();
                Ok(o.lock().unwrap().iter().find(|(n, _)| *n == k).map(|(_, v)| v.clone()).unwrap_or(JsValue::Undefined))
            }
            JsValue::Arr(_) | JsValue::Date(_) => Ok(JsValue::Undefined),
            _ => Err(JsValue::from_str("TypeError: Reflect.get called on non-object")),
        }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        let k = key.as_string().unwrap_or_default();
        match target {
            JsValue::Obj(o) => Ok(o.lock().unwrap().iter().any(|(n, _)| *n == k)),
            JsValue::Arr(_) | JsValue::Date(_) => Ok(false),
            _ => Err(JsValue::from_str("TypeError: Reflect.has called on non-object")),
        }
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        let JsValue::Obj(o) = target else { return Err(JsValue::from_str("TypeError: Reflect.set called on non-object")) };
        let k = key.as_string().unwrap_or_default();
        let mut o = o.lock().unwrap();
        match o.iter_mut().find(|(n, _)| *n == k) {
            Some(e) => e.1 = value.clone(),
            None => o.push((k, value.clone())),
        }
        Ok(true)
    }
}

// ---- serde_wasm_bindgen
#[derive(Debug)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Error {}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        JsValue::Str(format!("Error: {}", e.0))
    }
}
pub fn to_value<T: serde::Serialize + ?Sized>(v: &T) -> Result<JsValue, Error> {
    serde_json::to_value(v).map(|x| JsValue::from_json(&x)).map_err(|e| Error(e.to_string()))
}
pub fn from_value<T: serde::de::DeserializeOwned>(v: JsValue) -> Result<T, Error> {
    serde_json::from_value(v.json()).map_err(|e| Error(e.to_string()))
}

// ---- console_log
pub fn init() -> Result<(), log::SetLoggerError> {
    Ok(())
}
pub fn set_once() {}
pub fn init_with_level(_level: log::Level) -> Result<(), log::SetLoggerError> {
    Ok(())
}

// ---- gloo_net
/// What a URL answers to a request with this Range header, if any: status, headers and body, or a failed fetch.
pub struct Answer {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Result<Vec<u8>, String>,
}
pub type Server = Arc<dyn Fn(Option<&str>) -> Result<Answer, String> + Send + Sync>;
static SERVERS: Mutex<Option<HashMap<String, Server>>> = Mutex::new(None);
pub fn serve(url: &str, s: Server) {
    SERVERS.lock().unwrap().get_or_insert_with(HashMap::new).insert(url.to_string(), s);
}
pub fn unserve(url: &str) {
    SERVERS.lock().unwrap().get_or_insert_with(HashMap::new).remove(url);
}
pub mod http {
    use super::*;
    pub struct Request;
    impl Request {
        pub fn get(url: &str) -> RequestBuilder {
            RequestBuilder::new(url)
        }
    }
    pub struct RequestBuilder {
        url: String,
        range: Option<String>,
    }
    impl RequestBuilder {
        pub fn new(url: &str) -> Self {
            RequestBuilder { url: url.to_string(), range: None }
        }
        pub fn header(mut self, k: &str, v: &str) -> Self {
            if k.eq_ignore_ascii_case("range") {
                self.range = Some(v.to_string());
            }
            self
        }
        pub async fn send(self) -> Result<Response, Error> {
            let s = SERVERS.lock().unwrap().as_ref().and_then(|m| m.get(&self.url).cloned());
            let Some(s) = s else { return Err(Error(format!("nothing at {}", self.url))) };
            s(self.range.as_deref()).map(Response).map_err(Error)
        }
    }
    pub struct Response(Answer);
    impl Response {
        pub fn ok(&self) -> bool {
            (200..300).contains(&self.0.status)
        }
        pub fn status(&self) -> u16 {
            self.0.status
        }
        pub fn headers(&self) -> Headers {
            Headers(self.0.headers.clone())
        }
        pub async fn binary(&self) -> Result<Vec<u8>, Error> {
            self.0.body.clone().map_err(Error)
        }
    }
    pub struct Headers(Vec<(String, String)>);
    impl Headers {
        pub fn get(&self, name: &str) -> Option<String> {
            self.0.iter().find(|(n, _)| n.eq_ignore_ascii_case(name)).map(|(_, v)| v.clone())
        }
    }
}
