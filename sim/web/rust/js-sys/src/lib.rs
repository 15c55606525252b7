//! Stand-in for js-sys: arrays with the semantics of JavaScript's, shared by reference.
use std::cell::RefCell;
use std::rc::Rc;
use wasm_bindgen::{Inner, JsCast, JsValue};

#[derive(Clone, Debug)]
pub struct Array(Rc<RefCell<Vec<JsValue>>>);
impl Array {
    pub fn new() -> Array {
        Array(Default::default())
    }
    pub fn new_with_length(n: u32) -> Array {
        Array(Rc::new(RefCell::new(vec![JsValue::UNDEFINED; n as usize])))
    }
    pub fn length(&self) -> u32 {
        self.0.borrow().len() as u32
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.0.borrow_mut().push(v.clone());
        self.length()
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.0.borrow().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn set(&self, i: u32, v: JsValue) {
        let mut a = self.0.borrow_mut();
        if a.len() <= i as usize {
            a.resize(i as usize + 1, JsValue::UNDEFINED);
        }
        a[i as usize] = v;
    }
    pub fn reverse(&self) -> Array {
        self.0.borrow_mut().reverse();
        self.clone()
    }
}
impl<A: Into<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(iter: T) -> Array {
        Array(Rc::new(RefCell::new(iter.into_iter().map(Into::into).collect())))
    }
}
impl<A: Into<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, iter: T) {
        self.0.borrow_mut().extend(iter.into_iter().map(Into::into));
    }
}
impl From<Array> for JsValue {
    fn from(a: Array) -> JsValue {
        JsValue(Inner::List(a.0))
    }
}
impl From<&Array> for JsValue {
    fn from(a: &Array) -> JsValue {
        JsValue(Inner::List(a.0.clone()))
    }
}

macro_rules! bytes {
    ($name:ident, $convert:expr) => {
        #[derive(Clone, Debug)]
        pub struct $name(JsValue);
        impl $name {
            fn of(v: Vec<u8>) -> $name {
                $name(JsValue(Inner::Bytes(Rc::new(RefCell::new(v)), false)))
            }
            fn cell(&self) -> Rc<RefCell<Vec<u8>>> {
                match &self.0 .0 {
                    Inner::Bytes(b, _) => b.clone(),
                    _ => Default::default(),
                }
            }
            /// `new Uint8Array(value)`
            pub fn new(v: &JsValue) -> $name {
                match &v.0 {
                    Inner::List(l) => $name::of(l.borrow().iter().map($convert).collect()),
                    Inner::Bytes(b, _) => $name::of(b.borrow().clone()),
                    Inner::Number(n) => $name::of(vec![0; *n as usize]),
                    _ => $name::of(vec![]),
                }
            }
            pub fn new_with_length(n: u32) -> $name {
                $name::of(vec![0; n as usize])
            }
            pub fn length(&self) -> u32 {
                self.cell().borrow().len() as u32
            }
            pub fn byte_length(&self) -> u32 {
                self.length()
            }
            pub fn to_vec(&self) -> Vec<u8> {
                self.cell().borrow().clone()
            }
            pub fn copy_to(&self, dst: &mut [u8]) {
                dst.copy_from_slice(&self.cell().borrow());
            }
            pub fn copy_from(&self, src: &[u8]) {
                self.cell().borrow_mut().copy_from_slice(src);
            }
            pub fn set(&self, src: &JsValue, offset: u32) {
                let new = $name::new(src).to_vec();
                self.cell().borrow_mut()[offset as usize..offset as usize + new.len()].copy_from_slice(&new);
            }
            pub fn set_index(&self, i: u32, v: u8) {
                if let Some(b) = self.cell().borrow_mut().get_mut(i as usize) {
                    *b = v;
                }
            }
            pub fn get_index(&self, i: u32) -> u8 {
                self.cell().borrow()[i as usize]
            }
            pub fn fill(&self, v: u8, a: u32, b: u32) -> $name {
                self.cell().borrow_mut()[a as usize..b as usize].fill(v);
                self.clone()
            }
            pub fn slice(&self, a: u32, b: u32) -> $name {
                $name::of(self.cell().borrow()[a as usize..b as usize].to_vec())
            }
            pub fn subarray(&self, a: u32, b: u32) -> $name {
                self.slice(a, b)
            }
            /// A view of memory: valid until the module runs again
            pub unsafe fn view(v: &[u8]) -> $name {
                $name(JsValue(Inner::Bytes(Rc::new(RefCell::new(v.to_vec())), true)))
            }
            /// Whether JavaScript sees the module's memory
            pub fn is_view(&self) -> bool {
                matches!(self.0 .0, Inner::Bytes(_, true))
            }
            /// Identifies the JavaScript object
            pub fn identity(&self) -> usize {
                Rc::as_ptr(&self.cell()) as usize
            }
        }
        impl From<&[u8]> for $name {
            fn from(v: &[u8]) -> $name {
                $name::of(v.to_vec())
            }
        }
        impl<const N: usize> From<[u8; N]> for $name {
            fn from(v: [u8; N]) -> $name {
                $name::of(v.to_vec())
            }
        }
        impl From<Vec<u8>> for $name {
            fn from(v: Vec<u8>) -> $name {
                $name::of(v)
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.0
            }
        }
        impl From<&$name> for JsValue {
            fn from(v: &$name) -> JsValue {
                v.0.clone()
            }
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> $name {
                $name(v)
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl JsCast for $name {
            fn from_value(v: JsValue) -> $name {
                $name(v)
            }
        }
    };
}
bytes!(Uint8Array, |v: &JsValue| v.to_byte());
bytes!(Uint8ClampedArray, |v: &JsValue| v.as_f64().map_or(0, |n| n.round().clamp(0., 255.) as u8));
