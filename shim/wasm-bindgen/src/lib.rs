//! Native stand-in for `wasm-bindgen`: a small model of JavaScript values, so that the
//! JavaScript-facing half of the crate under test runs on the host (the real crate's imports
//! panic outside wasm). Semantics follow ECMAScript for the operations offered.
#![allow(clippy::all)]
use std::cell::RefCell;
use std::fmt;
use std::ops::Deref;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue, UnwrapThrowExt};
}

pub type NativeFn = dyn Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue>;

#[doc(hidden)]
pub struct ObjectData {
    pub props: RefCell<Vec<(String, JsValue)>>,
    pub kind: ObjectKind,
}

#[doc(hidden)]
pub enum ObjectKind {
    Plain,
    Array(RefCell<Vec<JsValue>>),
    Function(Box<NativeFn>),
    Error(String),
}

#[doc(hidden)]
#[derive(Clone)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(Rc<str>),
    Object(Rc<ObjectData>),
}

#[derive(Clone)]
#[repr(transparent)]
pub struct JsValue {
    #[doc(hidden)]
    pub repr: Repr,
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue { repr: Repr::Undefined };
    pub const NULL: JsValue = JsValue { repr: Repr::Null };
    pub const TRUE: JsValue = JsValue { repr: Repr::Bool(true) };
    pub const FALSE: JsValue = JsValue { repr: Repr::Bool(false) };

    pub fn undefined() -> JsValue { Self::UNDEFINED }
    pub fn null() -> JsValue { Self::NULL }
    pub fn from_str(s: &str) -> JsValue { JsValue { repr: Repr::Str(Rc::from(s)) } }
    pub fn from_f64(n: f64) -> JsValue { JsValue { repr: Repr::Number(n) } }
    pub fn from_bool(b: bool) -> JsValue { JsValue { repr: Repr::Bool(b) } }

    #[doc(hidden)]
    pub fn new_object(kind: ObjectKind) -> JsValue {
        JsValue { repr: Repr::Object(Rc::new(ObjectData { props: RefCell::new(Vec::new()), kind })) }
    }
    #[doc(hidden)]
    pub fn object_data(&self) -> Option<&Rc<ObjectData>> {
        match &self.repr { Repr::Object(o) => Some(o), _ => None }
    }

    pub fn as_f64(&self) -> Option<f64> { if let Repr::Number(n) = self.repr { Some(n) } else { None } }
    pub fn as_bool(&self) -> Option<bool> { if let Repr::Bool(b) = self.repr { Some(b) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let Repr::Str(s) = &self.repr { Some(s.to_string()) } else { None } }
    pub fn is_string(&self) -> bool { matches!(self.repr, Repr::Str(_)) }
    pub fn is_null(&self) -> bool { matches!(self.repr, Repr::Null) }
    pub fn is_undefined(&self) -> bool { matches!(self.repr, Repr::Undefined) }
    pub fn is_null_or_undefined(&self) -> bool { self.is_null() || self.is_undefined() }
    pub fn is_object(&self) -> bool { self.object_data().map_or(false, |o| !matches!(o.kind, ObjectKind::Function(_))) }
    pub fn is_function(&self) -> bool { self.object_data().map_or(false, |o| matches!(o.kind, ObjectKind::Function(_))) }
    pub fn is_array(&self) -> bool { self.object_data().map_or(false, |o| matches!(o.kind, ObjectKind::Array(_))) }
    pub fn is_symbol(&self) -> bool { false }
    pub fn is_bigint(&self) -> bool { false }
    pub fn is_truthy(&self) -> bool {
        match &self.repr {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(b) => *b,
            Repr::Number(n) => !(*n == 0.0 || n.is_nan()),
            Repr::Str(s) => !s.is_empty(),
            Repr::Object(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool { !self.is_truthy() }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match &self.repr {
            Repr::Undefined => "undefined",
            Repr::Null => "object",
            Repr::Bool(_) => "boolean",
            Repr::Number(_) => "number",
            Repr::Str(_) => "string",
            Repr::Object(_) => if self.is_function() { "function" } else { "object" },
        })
    }
    pub fn js_in(&self, obj: &JsValue) -> bool {
        match (self.as_string(), obj.object_data()) {
            (Some(key), Some(_)) => obj.own_property(&key).is_some(),
            _ => false,
        }
    }
    pub fn loose_eq(&self, other: &JsValue) -> bool {
        match (&self.repr, &other.repr) {
            (Repr::Undefined | Repr::Null, Repr::Undefined | Repr::Null) => true,
            (Repr::Str(_), Repr::Number(n)) => self.to_number_lossy() == *n,
            (Repr::Number(n), Repr::Str(_)) => other.to_number_lossy() == *n,
            _ => self == other,
        }
    }
    fn to_number_lossy(&self) -> f64 {
        match &self.repr {
            Repr::Undefined | Repr::Object(_) => f64::NAN,
            Repr::Null => 0.0,
            Repr::Bool(b) => if *b { 1.0 } else { 0.0 },
            Repr::Number(n) => *n,
            Repr::Str(s) => { let t = s.trim(); if t.is_empty() { 0.0 } else { t.parse().unwrap_or(f64::NAN) } }
        }
    }
    pub fn unchecked_into_f64(&self) -> f64 { self.to_number_lossy() }

    #[doc(hidden)]
    pub fn own_property(&self, key: &str) -> Option<JsValue> {
        let o = self.object_data()?;
        if let ObjectKind::Array(items) = &o.kind {
            if key == "length" { return Some(JsValue::from_f64(items.borrow().len() as f64)); }
            if let Ok(i) = key.parse::<usize>() {
                if i.to_string() == key { return items.borrow().get(i).cloned(); }
            }
        }
        if let ObjectKind::Error(m) = &o.kind {
            if key == "message" { return Some(JsValue::from_str(m)); }
        }
        o.props.borrow().iter().find(|(k, _)| k == key).map(|(_, v)| v.clone())
    }
    #[doc(hidden)]
    pub fn own_keys(&self) -> Vec<String> {
        let o = match self.object_data() { Some(o) => o, None => return Vec::new() };
        let mut ints: Vec<(u32, String)> = Vec::new();
        let mut rest: Vec<String> = Vec::new();
        if let ObjectKind::Array(items) = &o.kind {
            for i in 0..items.borrow().len() { ints.push((i as u32, i.to_string())); }
        }
        for (k, _) in o.props.borrow().iter() {
            match k.parse::<u32>() {
                Ok(i) if i.to_string() == *k && i != u32::MAX => ints.push((i, k.clone())),
                _ => rest.push(k.clone()),
            }
        }
        ints.sort();
        ints.into_iter().map(|(_, k)| k).chain(rest).collect()
    }
    #[doc(hidden)]
    pub fn set_own(&self, key: &str, value: JsValue) -> bool {
        let o = match self.object_data() { Some(o) => o, None => return false };
        if let ObjectKind::Array(items) = &o.kind {
            if let Ok(i) = key.parse::<usize>() {
                let mut items = items.borrow_mut();
                while items.len() <= i { items.push(JsValue::UNDEFINED); }
                items[i] = value;
                return true;
            }
        }
        let mut props = o.props.borrow_mut();
        match props.iter_mut().find(|(k, _)| k == key) {
            Some((_, v)) => *v = value,
            None => props.push((key.to_string(), value)),
        }
        true
    }
}

impl Default for JsValue { fn default() -> Self { Self::UNDEFINED } }

// Strict equality (===).
impl PartialEq for JsValue {
    fn eq(&self, other: &Self) -> bool {
        match (&self.repr, &other.repr) {
            (Repr::Undefined, Repr::Undefined) | (Repr::Null, Repr::Null) => true,
            (Repr::Bool(a), Repr::Bool(b)) => a == b,
            (Repr::Number(a), Repr::Number(b)) => a == b,
            (Repr::Str(a), Repr::Str(b)) => a == b,
            (Repr::Object(a), Repr::Object(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl PartialEq<bool> for JsValue { fn eq(&self, o: &bool) -> bool { self.as_bool() == Some(*o) } }
impl PartialEq<str> for JsValue { fn eq(&self, o: &str) -> bool { matches!(&self.repr, Repr::Str(s) if &**s == o) } }
impl<'a> PartialEq<&'a str> for JsValue { fn eq(&self, o: &&'a str) -> bool { self == *o } }
impl PartialEq<String> for JsValue { fn eq(&self, o: &String) -> bool { self == o.as_str() } }

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Undefined => write!(f, "JsValue(undefined)"),
            Repr::Null => write!(f, "JsValue(null)"),
            Repr::Bool(b) => write!(f, "JsValue({b})"),
            Repr::Number(n) => write!(f, "JsValue({n})"),
            Repr::Str(s) => write!(f, "JsValue({s:?})"),
            Repr::Object(o) => match &o.kind {
                ObjectKind::Plain => write!(f, "JsValue(Object)"),
                ObjectKind::Array(_) => write!(f, "JsValue(Array)"),
                ObjectKind::Function(_) => write!(f, "JsValue(Function)"),
                ObjectKind::Error(m) => write!(f, "JsValue(Error: {m})"),
            },
        }
    }
}

macro_rules! numbers { ($($n:ty)*) => {$(
    impl From<$n> for JsValue { fn from(n: $n) -> Self { JsValue::from_f64(n as f64) } }
    impl PartialEq<$n> for JsValue { fn eq(&self, o: &$n) -> bool { self.as_f64() == Some(*o as f64) } }
)*} }
numbers!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize);
impl From<bool> for JsValue { fn from(b: bool) -> Self { JsValue::from_bool(b) } }
impl<'a> From<&'a str> for JsValue { fn from(s: &'a str) -> Self { JsValue::from_str(s) } }
impl<'a> From<&'a String> for JsValue { fn from(s: &'a String) -> Self { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::from_str(&s) } }
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(v: Option<T>) -> Self { v.map_or(JsValue::UNDEFINED, Into::into) }
}
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> { v.as_f64().ok_or(v) }
}
impl<'a> TryFrom<&'a JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: &'a JsValue) -> Result<f64, JsValue> { v.as_f64().ok_or_else(|| v.clone()) }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> { v.as_string().ok_or(v) }
}
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn is_type_of(val: &JsValue) -> bool { Self::instanceof(val) }
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn has_type<T: JsCast>(&self) -> bool { T::is_type_of(self.as_ref()) }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() { Ok(self.unchecked_into()) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(self.unchecked_ref()) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T { T::unchecked_from_js(self.into()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { T::unchecked_from_js_ref(self.as_ref()) }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool { true }
    fn unchecked_from_js(val: JsValue) -> Self { val }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self { val }
}

#[derive(Clone, Debug)]
pub struct JsError { value: JsValue }
impl JsError {
    pub fn new(s: &str) -> JsError { JsError { value: JsValue::new_object(ObjectKind::Error(s.to_string())) } }
}
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> Self { JsError::new(&e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> JsValue { e.value } }

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, message: &str) -> T { self.expect(message) }
}

pub fn throw_str(s: &str) -> ! { panic!("{s}") }
pub fn throw_val(v: JsValue) -> ! { panic!("{v:?}") }
pub fn intern(s: &str) -> &str { s }

#[derive(Clone, PartialEq, Debug)]
pub struct Clamped<T>(pub T);
impl<T> Deref for Clamped<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
