//! Native stand-in for `js-sys` on top of the native `wasm-bindgen` stand-in.
#![allow(clippy::all, non_snake_case)]
use std::cell::RefCell;
use std::ops::Deref;
use wasm_bindgen::{JsCast, JsValue, ObjectKind};

macro_rules! js_type {
    ($name:ident, $target:ty, |$v:ident| $test:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        #[repr(transparent)]
        pub struct $name { obj: JsValue }
        impl Eq for $name {}
        impl AsRef<JsValue> for $name { fn as_ref(&self) -> &JsValue { &self.obj } }
        impl AsRef<$name> for $name { fn as_ref(&self) -> &$name { self } }
        impl From<$name> for JsValue { fn from(v: $name) -> JsValue { v.obj } }
        impl<'a> From<&'a $name> for JsValue { fn from(v: &'a $name) -> JsValue { v.obj.clone() } }
        impl From<JsValue> for $name { fn from(v: JsValue) -> $name { $name { obj: v } } }
        impl Deref for $name {
            type Target = $target;
            fn deref(&self) -> &$target { <$target as JsCast>::unchecked_from_js_ref(&self.obj) }
        }
        impl JsCast for $name {
            fn instanceof($v: &JsValue) -> bool { $test }
            fn unchecked_from_js(val: JsValue) -> Self { $name { obj: val } }
            // SAFETY: `$name` is a transparent wrapper around `JsValue`.
            fn unchecked_from_js_ref(val: &JsValue) -> &Self { unsafe { &*(val as *const JsValue).cast::<$name>() } }
        }
    };
}
js_type!(Object, JsValue, |v| v.is_object() || v.is_function());
js_type!(Array, Object, |v| v.is_array());
js_type!(Function, Object, |v| v.is_function());
js_type!(JsString, Object, |v| v.is_string());
js_type!(Number, Object, |v| v.as_f64().is_some());
js_type!(Boolean, Object, |v| v.as_bool().is_some());
js_type!(Error, Object, |v| v.object_data().map_or(false, |o| matches!(o.kind, ObjectKind::Error(_))));

macro_rules! upcast { ($($t:ident)*) => {$(
    impl AsRef<Object> for $t { fn as_ref(&self) -> &Object { Object::unchecked_from_js_ref(&self.obj) } }
    impl From<$t> for Object { fn from(v: $t) -> Object { Object { obj: v.obj } } }
)*} }
upcast!(Array Function JsString Number Boolean Error);

fn type_error(msg: &str) -> JsValue { JsValue::new_object(ObjectKind::Error(format!("TypeError: {msg}"))) }

impl Default for Object { fn default() -> Self { Object::new() } }
impl Object {
    pub fn new() -> Object { Object { obj: JsValue::new_object(ObjectKind::Plain) } }
    pub fn try_from(val: &JsValue) -> Option<&Object> { val.dyn_ref() }
    pub fn keys(object: &Object) -> Array { Array::from_vec(object.obj.own_keys().iter().map(JsValue::from).collect()) }
    pub fn values(object: &Object) -> Array {
        Array::from_vec(object.obj.own_keys().iter().map(|k| object.obj.own_property(k).unwrap_or_default()).collect())
    }
    pub fn entries(object: &Object) -> Array {
        Array::from_vec(object.obj.own_keys().iter().map(|k| {
            Array::from_vec(vec![k.into(), object.obj.own_property(k).unwrap_or_default()]).into()
        }).collect())
    }
    pub fn has_own_property(&self, key: &JsValue) -> bool {
        key.as_string().map_or(false, |k| self.obj.own_property(&k).is_some())
    }
    pub fn has_own(object: &Object, key: &JsValue) -> bool { object.has_own_property(key) }
    pub fn assign(target: &Object, source: &Object) -> Object {
        for k in source.obj.own_keys() { target.obj.set_own(&k, source.obj.own_property(&k).unwrap_or_default()); }
        target.clone()
    }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        match (a.as_f64(), b.as_f64()) {
            (Some(x), Some(y)) => (x.is_nan() && y.is_nan()) || (x == y && x.is_sign_negative() == y.is_sign_negative()),
            _ => a == b,
        }
    }
}

pub mod Reflect {
    use super::*;
    fn key_of(key: &JsValue) -> String {
        key.as_string().or_else(|| key.as_f64().map(|n| n.to_string())).unwrap_or_else(|| {
            if key.is_null() { "null".into() } else if key.is_undefined() { "undefined".into() }
            else { key.as_bool().map_or("[object Object]".to_string(), |b| b.to_string()) }
        })
    }
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        if target.object_data().is_none() { return Err(type_error("Reflect.get called on non-object")); }
        Ok(target.own_property(&key_of(key)).unwrap_or(JsValue::UNDEFINED))
    }
    pub fn get_u32(target: &JsValue, key: u32) -> Result<JsValue, JsValue> { get(target, &JsValue::from(key)) }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        if target.object_data().is_none() { return Err(type_error("Reflect.has called on non-object")); }
        Ok(target.own_property(&key_of(key)).is_some())
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        if target.object_data().is_none() { return Err(type_error("Reflect.set called on non-object")); }
        Ok(target.set_own(&key_of(key), value.clone()))
    }
    pub fn own_keys(target: &JsValue) -> Result<Array, JsValue> {
        if target.object_data().is_none() { return Err(type_error("Reflect.ownKeys called on non-object")); }
        Ok(Array::from_vec(target.own_keys().iter().map(JsValue::from).collect()))
    }
    pub fn delete_property(target: &Object, key: &JsValue) -> Result<bool, JsValue> {
        let t: &JsValue = target.as_ref();
        if let Some(o) = t.object_data() { let k = key_of(key); o.props.borrow_mut().retain(|(n, _)| *n != k); }
        Ok(true)
    }
}

impl Default for Array { fn default() -> Self { Array::new() } }
impl Array {
    #[doc(hidden)]
    pub fn from_vec(v: Vec<JsValue>) -> Array { Array { obj: JsValue::new_object(ObjectKind::Array(RefCell::new(v))) } }
    fn items(&self) -> Option<&RefCell<Vec<JsValue>>> {
        match &self.obj.object_data()?.kind { ObjectKind::Array(v) => Some(v), _ => None }
    }
    pub fn new() -> Array { Array::from_vec(Vec::new()) }
    pub fn new_with_length(n: u32) -> Array { Array::from_vec(vec![JsValue::UNDEFINED; n as usize]) }
    pub fn is_array(v: &JsValue) -> bool { v.is_array() }
    pub fn from(v: &JsValue) -> Array { v.dyn_ref::<Array>().map_or_else(Array::new, |a| Array::from_vec(a.to_vec())) }
    pub fn length(&self) -> u32 { self.items().map_or(0, |v| v.borrow().len() as u32) }
    pub fn get(&self, i: u32) -> JsValue { self.items().and_then(|v| v.borrow().get(i as usize).cloned()).unwrap_or_default() }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i64;
        let i = if i < 0 { n + i64::from(i) } else { i64::from(i) };
        if i < 0 { JsValue::UNDEFINED } else { self.get(i as u32) }
    }
    pub fn set(&self, i: u32, v: JsValue) { self.obj.set_own(&i.to_string(), v); }
    pub fn push(&self, v: &JsValue) -> u32 { if let Some(i) = self.items() { i.borrow_mut().push(v.clone()); } self.length() }
    pub fn pop(&self) -> JsValue { self.items().and_then(|i| i.borrow_mut().pop()).unwrap_or_default() }
    pub fn to_vec(&self) -> Vec<JsValue> { self.items().map_or_else(Vec::new, |v| v.borrow().clone()) }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> { self.to_vec().into_iter() }
    pub fn includes(&self, v: &JsValue, from: i32) -> bool { self.index_of(v, from) >= 0 }
    pub fn index_of(&self, v: &JsValue, from: i32) -> i32 {
        self.to_vec().iter().enumerate().skip(from.max(0) as usize).find(|(_, x)| *x == v).map_or(-1, |(i, _)| i as i32)
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.to_vec().into_iter().enumerate() { f(v, i as u32, self.clone()); }
    }
    pub fn of1(a: &JsValue) -> Array { Array::from_vec(vec![a.clone()]) }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array { Array::from_vec(vec![a.clone(), b.clone()]) }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array { Array::from_vec(vec![a.clone(), b.clone(), c.clone()]) }
}
impl<'a> IntoIterator for &'a Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<A: Into<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array { Array::from_vec(i.into_iter().map(Into::into).collect()) }
}

impl Function {
    /// Native addition: a function implemented in Rust.
    pub fn native(f: impl Fn(&JsValue, &[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function {
        Function { obj: JsValue::new_object(ObjectKind::Function(Box::new(f))) }
    }
    fn invoke(&self, this: &JsValue, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match self.obj.object_data().map(|o| &o.kind) {
            Some(ObjectKind::Function(f)) => f(this, args),
            _ => Err(type_error("not a function")),
        }
    }
    pub fn apply(&self, this: &JsValue, args: &Array) -> Result<JsValue, JsValue> { self.invoke(this, &args.to_vec()) }
    pub fn call0(&self, this: &JsValue) -> Result<JsValue, JsValue> { self.invoke(this, &[]) }
    pub fn call1(&self, this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> { self.invoke(this, &[a.clone()]) }
    pub fn call2(&self, this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> { self.invoke(this, &[a.clone(), b.clone()]) }
    pub fn call3(&self, this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> { self.invoke(this, &[a.clone(), b.clone(), c.clone()]) }
}
impl<'a> From<&'a str> for JsString { fn from(s: &'a str) -> Self { JsString { obj: JsValue::from_str(s) } } }
impl From<String> for JsString { fn from(s: String) -> Self { JsString { obj: JsValue::from_str(&s) } } }
impl From<JsString> for String { fn from(s: JsString) -> String { s.obj.as_string().unwrap_or_default() } }
impl From<f64> for Number { fn from(n: f64) -> Self { Number { obj: JsValue::from_f64(n) } } }
impl Number {
    pub fn value_of(&self) -> f64 { self.obj.as_f64().unwrap_or(f64::NAN) }
    pub fn is_nan(v: &JsValue) -> bool { v.as_f64().map_or(false, f64::is_nan) }
    pub fn is_finite(v: &JsValue) -> bool { v.as_f64().map_or(false, f64::is_finite) }
}
impl Error {
    pub fn new(m: &str) -> Error { Error { obj: JsValue::new_object(ObjectKind::Error(m.to_string())) } }
}
