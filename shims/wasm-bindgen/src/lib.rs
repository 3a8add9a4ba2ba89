//! Stand-in for `wasm-bindgen` on the host: a `JsValue` is an opaque tagged
//! index into tables owned by the mock (see the `web-sys` stand-in for the DOM),
//! and a `Closure` is a slot in a table of Rust closures.
//!
//! Semantics kept from the real crate: calling a function whose `Closure` has
//! been dropped throws (here: panics); `unwrap_throw` throws (here: panics).

use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct JsValue {
    pub raw: u32,
}

pub mod kind {
    pub const UNDEFINED: u32 = 0;
    pub const NODE: u32 = 1;
    pub const FUNCTION: u32 = 2;
    pub const EVENT: u32 = 3;
    pub const STRING: u32 = 4;
    pub const OBJECT: u32 = 5;
    pub const WINDOW: u32 = 6;
    pub const TARGET: u32 = 7;
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue { raw: 0 };
    pub const NULL: JsValue = JsValue { raw: 1 };
    pub const fn mock(kind: u32, idx: u32) -> Self {
        JsValue {
            raw: (kind << 24) | idx,
        }
    }
    pub const fn mock_kind(&self) -> u32 {
        self.raw >> 24
    }
    pub const fn mock_idx(&self) -> usize {
        (self.raw & 0xff_ffff) as usize
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue::mock(kind::STRING, mock::str_id(s))
    }
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
}
impl<'a> From<&'a str> for JsValue {
    fn from(s: &'a str) -> Self {
        JsValue::from_str(s)
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        Ok(self.unchecked_into())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        Some(self.unchecked_ref())
    }
}
impl JsCast for JsValue {
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Some(v) => v,
            None => panic!("unwrap_throw on None"),
        }
    }
    #[track_caller]
    fn expect_throw(self, _message: &str) -> T {
        self.unwrap_throw()
    }
}
impl<T, E> UnwrapThrowExt<T> for Result<T, E> {
    #[track_caller]
    fn unwrap_throw(self) -> T {
        match self {
            Ok(v) => v,
            Err(_) => panic!("unwrap_throw on Err"),
        }
    }
    #[track_caller]
    fn expect_throw(self, _message: &str) -> T {
        self.unwrap_throw()
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("throw: {s}")
}

pub mod closure {
    use super::*;
    use std::marker::PhantomData;

    /// Which closure signatures can be turned into a JS function.
    pub trait WasmClosure {}
    pub trait IntoWasmClosure<T: ?Sized> {
        fn into_js(self) -> Rc<dyn Fn(JsValue)>;
    }
    impl WasmClosure for dyn Fn() {}
    impl<A: JsCast> WasmClosure for dyn Fn(A) {}
    impl WasmClosure for dyn FnMut() {}
    impl<A: JsCast> WasmClosure for dyn FnMut(A) {}
    impl<F: Fn() + 'static> IntoWasmClosure<dyn Fn()> for F {
        fn into_js(self) -> Rc<dyn Fn(JsValue)> {
            Rc::new(move |_| self())
        }
    }
    impl<A: JsCast, F: Fn(A) + 'static> IntoWasmClosure<dyn Fn(A)> for F {
        fn into_js(self) -> Rc<dyn Fn(JsValue)> {
            Rc::new(move |v| self(A::unchecked_from_js(v)))
        }
    }
    impl<F: FnMut() + 'static> IntoWasmClosure<dyn FnMut()> for F {
        fn into_js(self) -> Rc<dyn Fn(JsValue)> {
            let cell = std::cell::RefCell::new(self);
            // A recursive call to an FnMut closure throws in wasm-bindgen too.
            Rc::new(move |_| (cell.borrow_mut())())
        }
    }
    impl<A: JsCast, F: FnMut(A) + 'static> IntoWasmClosure<dyn FnMut(A)> for F {
        fn into_js(self) -> Rc<dyn Fn(JsValue)> {
            let cell = std::cell::RefCell::new(self);
            Rc::new(move |v| (cell.borrow_mut())(A::unchecked_from_js(v)))
        }
    }

    pub struct Closure<T: ?Sized> {
        js: JsValue,
        _p: PhantomData<Box<T>>,
    }
    impl<T: ?Sized + WasmClosure> Closure<T> {
        pub fn new<F: IntoWasmClosure<T> + 'static>(t: F) -> Closure<T> {
            Closure {
                js: JsValue::mock(kind::FUNCTION, mock::add_fn(t.into_js())),
                _p: PhantomData,
            }
        }
        pub fn wrap_fn<F: IntoWasmClosure<T> + 'static>(t: F) -> Closure<T> {
            Self::new(t)
        }
        pub fn forget(self) {
            std::mem::forget(self)
        }
        pub fn into_js_value(self) -> JsValue {
            let v = self.js.clone();
            std::mem::forget(self);
            v
        }
    }
    impl<T: ?Sized> AsRef<JsValue> for Closure<T> {
        fn as_ref(&self) -> &JsValue {
            &self.js
        }
    }
    impl<T: ?Sized> Drop for Closure<T> {
        fn drop(&mut self) {
            mock::drop_fn(self.js.mock_idx());
        }
    }
}

pub mod convert {
    pub use super::JsCast;
}
pub mod prelude {
    pub use super::closure::Closure;
    pub use super::{JsCast, JsValue, UnwrapThrowExt};
}

/// Mock internals, used by the harnesses.
pub mod mock {
    use super::*;
    pub const MAX_FNS: usize = 256;
    pub static mut FNS: [Option<Rc<dyn Fn(JsValue)>>; MAX_FNS] = [const { None }; MAX_FNS];
    pub static mut NUM_FNS: usize = 0;

    /// A stable 24-bit id of a string (FNV-1a folded); only compared for equality.
    pub fn str_id(s: &str) -> u32 {
        let mut h: u32 = 0x811c9dc5;
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            h = (h ^ b[i] as u32).wrapping_mul(0x01000193);
            i += 1;
        }
        (h ^ (h >> 24)) & 0xff_ffff
    }
    pub fn add_fn(f: Rc<dyn Fn(JsValue)>) -> u32 {
        unsafe {
            let i = NUM_FNS;
            assert!(i < MAX_FNS, "mock capacity: closures");
            FNS[i] = Some(f);
            NUM_FNS += 1;
            i as u32
        }
    }
    pub fn drop_fn(i: usize) {
        unsafe {
            let f = FNS[i].take();
            drop(f);
        }
    }
    pub fn fn_alive(i: usize) -> bool {
        unsafe { FNS[i].is_some() }
    }
    /// Call a JS function object. Throws if the Rust closure was dropped.
    pub fn call_fn(func: &JsValue, arg: JsValue) {
        let f = unsafe { FNS[func.mock_idx()].clone() };
        match f {
            Some(f) => f(arg),
            None => panic!("closure invoked after being dropped"),
        }
    }
}
