//! Stand-in for `js-sys`.
use wasm_bindgen::{JsCast, JsValue};

/// Declares a JS class: a transparent wrapper over `JsValue`.
#[macro_export]
macro_rules! js_class {
    ($name:ident : $parent:ty $(, $anc:ty)*) => {
        #[derive(Clone, PartialEq, Eq, Debug)]
        #[repr(transparent)]
        pub struct $name { pub js: $crate::__wb::JsValue }
        impl $crate::__wb::JsCast for $name {
            fn unchecked_from_js(val: $crate::__wb::JsValue) -> Self { Self { js: val } }
            fn unchecked_from_js_ref(val: &$crate::__wb::JsValue) -> &Self {
                // repr(transparent)
                unsafe { &*(val as *const $crate::__wb::JsValue as *const Self) }
            }
        }
        impl AsRef<$crate::__wb::JsValue> for $name {
            fn as_ref(&self) -> &$crate::__wb::JsValue { &self.js }
        }
        impl From<$name> for $crate::__wb::JsValue {
            fn from(v: $name) -> Self { v.js }
        }
        impl From<$crate::__wb::JsValue> for $name {
            fn from(v: $crate::__wb::JsValue) -> Self { Self { js: v } }
        }
        impl AsRef<$name> for $name {
            fn as_ref(&self) -> &$name { self }
        }
        impl core::ops::Deref for $name {
            type Target = $parent;
            fn deref(&self) -> &$parent {
                <$parent as $crate::__wb::JsCast>::unchecked_from_js_ref(&self.js)
            }
        }
        $crate::js_class!(@anc $name; $parent $(, $anc)*);
    };
    (@anc $name:ident; $(,)? $wb:ty) => { $crate::js_class!(@one $name; $wb); };
    (@anc $name:ident; $a:ty, $($rest:ty),+) => {
        $crate::js_class!(@one $name; $a);
        $crate::js_class!(@anc $name; $($rest),+);
    };
    (@one $name:ident; $a:ty) => {
        impl AsRef<$a> for $name {
            fn as_ref(&self) -> &$a {
                <$a as $crate::__wb::JsCast>::unchecked_from_js_ref(&self.js)
            }
        }
        impl From<$name> for $a {
            fn from(v: $name) -> $a {
                <$a as $crate::__wb::JsCast>::unchecked_from_js(v.js)
            }
        }
    };
}
pub mod __wb {
    pub use wasm_bindgen::{JsCast, JsValue};
}

#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct Object {
    pub js: JsValue,
}
impl JsCast for Object {
    fn unchecked_from_js(val: JsValue) -> Self {
        Self { js: val }
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        unsafe { &*(val as *const JsValue as *const Self) }
    }
}
impl AsRef<JsValue> for Object {
    fn as_ref(&self) -> &JsValue {
        &self.js
    }
}
impl AsRef<Object> for Object {
    fn as_ref(&self) -> &Object {
        self
    }
}
impl From<Object> for JsValue {
    fn from(v: Object) -> Self {
        v.js
    }
}
impl core::ops::Deref for Object {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.js
    }
}
js_class!(Function: Object);
impl Function {
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        wasm_bindgen::mock::call_fn(&self.js, JsValue::UNDEFINED);
        Ok(JsValue::UNDEFINED)
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        wasm_bindgen::mock::call_fn(&self.js, a.clone());
        Ok(JsValue::UNDEFINED)
    }
}

/// An array of JS values (only ever used to pass lists of class names); a reference like in JS.
#[derive(Clone, Debug, Default)]
pub struct Array {
    items: std::rc::Rc<std::cell::RefCell<Vec<JsValue>>>,
}
impl PartialEq for Array {
    fn eq(&self, o: &Self) -> bool {
        std::rc::Rc::ptr_eq(&self.items, &o.items)
    }
}
impl Eq for Array {}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(iter: T) -> Self {
        let a = Array::new();
        iter.into_iter().for_each(|v| {
            a.push(v.as_ref());
        });
        a
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T) {
        iter.into_iter().for_each(|v| {
            self.push(v.as_ref());
        })
    }
}
impl Array {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn new_with_length(n: u32) -> Self {
        (0..n).map(|_| JsValue::UNDEFINED).collect()
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.items.borrow_mut().push(v.clone());
        self.length()
    }
    pub fn unshift(&self, v: &JsValue) -> u32 {
        self.items.borrow_mut().insert(0, v.clone());
        self.length()
    }
    pub fn pop(&self) -> JsValue {
        self.items.borrow_mut().pop().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn length(&self) -> u32 {
        self.items.borrow().len() as u32
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items.borrow().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.items.borrow_mut();
        while a.len() <= i as usize {
            a.push(JsValue::UNDEFINED);
        }
        a[i as usize] = v;
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items.borrow().clone()
    }
    pub fn of1(a: &JsValue) -> Self {
        [a].into_iter().collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Self {
        [a, b].into_iter().collect()
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Self {
        [a, b, c].into_iter().collect()
    }
}
