use crate::context::Context;
use crate::handle::{Handle, Managed};
use crate::heap::{alloc, with, Idx, Prop, Slot};
use crate::object::Object;
use crate::result::{JsResult, NeonResult};
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

pub trait Value: Managed + 'static {
    fn name() -> &'static str;
    fn is_typeof(i: Idx) -> bool;
}

macro_rules! value {
    ($t:ident, $name:expr, $pat:pat) => {
        #[derive(Copy, Clone, Debug)]
        pub struct $t(pub(crate) Idx);
        impl Managed for $t {
            fn idx(self) -> Idx {
                self.0
            }
            fn from_idx(i: Idx) -> Self {
                $t(i)
            }
        }
        impl Value for $t {
            fn name() -> &'static str {
                $name
            }
            fn is_typeof(i: Idx) -> bool {
                with(i, |s| matches!(s, $pat))
            }
        }
    };
}

value!(JsValue, "any", _);
value!(JsUndefined, "undefined", Slot::Undefined);
value!(JsNull, "null", Slot::Null);
value!(JsBoolean, "boolean", Slot::Bool(_));
value!(JsString, "string", Slot::Str(_));
value!(JsNumber, "number", Slot::Num(_));
value!(
    JsObject,
    "object",
    Slot::Obj(_) | Slot::Arr(_) | Slot::Buf(..) | Slot::Func(_) | Slot::Error(..) | Slot::Inst(..)
);
value!(JsArray, "Array", Slot::Arr(_));
value!(JsFunction, "function", Slot::Func(_));
value!(JsError, "Error", Slot::Error(..));
value!(JsArrayBuffer, "ArrayBuffer", Slot::Buf(..));
value!(JsBuffer, "Buffer", Slot::Buf(..));

impl Object for JsObject {}
impl Object for JsArray {}
impl Object for JsFunction {}
impl Object for JsError {}
impl Object for JsArrayBuffer {}
impl Object for JsBuffer {}

impl JsUndefined {
    pub fn new<'a>() -> Handle<'a, JsUndefined> {
        Handle::make(alloc(Slot::Undefined))
    }
}
impl JsNull {
    pub fn new<'a>() -> Handle<'a, JsNull> {
        Handle::make(alloc(Slot::Null))
    }
}
impl JsBoolean {
    pub fn new<'a, C: Context<'a>>(_: &mut C, b: bool) -> Handle<'a, JsBoolean> {
        Handle::make(alloc(Slot::Bool(b)))
    }
    pub fn value(self) -> bool {
        with(self.0, |s| matches!(s, Slot::Bool(true)))
    }
}
impl JsNumber {
    pub fn new<'a, C: Context<'a>, T: Into<f64>>(_: &mut C, v: T) -> Handle<'a, JsNumber> {
        Handle::make(alloc(Slot::Num(v.into())))
    }
    pub fn value(self) -> f64 {
        with(self.0, |s| if let Slot::Num(v) = s { *v } else { f64::NAN })
    }
}
#[derive(Debug)]
pub struct StringOverflow(usize);

impl JsString {
    pub fn new<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, s: S) -> Handle<'a, JsString> {
        Handle::make(alloc(Slot::Str(s.as_ref().to_string())))
    }
    pub fn try_new<'a, C: Context<'a>, S: AsRef<str>>(
        cx: &mut C,
        s: S,
    ) -> Result<Handle<'a, JsString>, StringOverflow> {
        Ok(JsString::new(cx, s))
    }
    pub fn value(self) -> String {
        with(self.0, |s| if let Slot::Str(v) = s { v.clone() } else { String::new() })
    }
    /// bytes in UTF-8
    pub fn size(self) -> isize {
        with(self.0, |s| if let Slot::Str(v) = s { v.len() as isize } else { 0 })
    }
}
impl JsObject {
    pub fn new<'a, C: Context<'a>>(_: &mut C) -> Handle<'a, JsObject> {
        Handle::make(alloc(Slot::Obj(Vec::new())))
    }
}
impl JsArray {
    pub fn new<'a, C: Context<'a>>(_: &mut C, len: u32) -> Handle<'a, JsArray> {
        let items = (0..len).map(|_| Prop::Value(alloc(Slot::Undefined))).collect();
        Handle::make(alloc(Slot::Arr(items)))
    }
    pub fn len(self) -> u32 {
        with(self.0, |s| if let Slot::Arr(v) = s { v.len() as u32 } else { 0 })
    }
    pub fn is_empty(self) -> bool {
        self.len() == 0
    }
    pub fn to_vec<'a, C: Context<'a>>(self, cx: &mut C) -> NeonResult<Vec<Handle<'a, JsValue>>> {
        (0..self.len()).map(|i| self.get(cx, i)).collect()
    }
}
impl JsFunction {
    pub fn call<'a, 'b, C: Context<'a>, T, A, AS>(
        self,
        _: &mut C,
        _this: Handle<'b, T>,
        args: AS,
    ) -> JsResult<'a, JsValue>
    where
        T: Value,
        A: Value + 'b,
        AS: IntoIterator<Item = Handle<'b, A>>,
    {
        let args: Vec<Idx> = args.into_iter().map(|h| h.index()).collect();
        let f = with(self.0, |s| if let Slot::Func(f) = s { f.clone() } else { unreachable!() });
        f(&args);
        Ok(JsUndefined::new().upcast())
    }
}

#[derive(Debug)]
pub struct BinaryData<'a> {
    ptr: *mut u8,
    len: usize,
    phantom: PhantomData<&'a mut [u8]>,
}
impl<'a> Clone for BinaryData<'a> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a> Copy for BinaryData<'a> {}

pub trait Element: Copy {}
macro_rules! element { ($($t:ty),*) => { $(impl Element for $t {})* } }
element!(u8, i8, u16, i16, u32, i32, f32, f64);

impl<'a> BinaryData<'a> {
    pub(crate) fn of(i: Idx) -> BinaryData<'a> {
        with(i, |s| {
            if let Slot::Buf(b, len) = s {
                BinaryData {
                    ptr: b.borrow_mut().as_mut_ptr() as *mut u8,
                    len: *len,
                    phantom: PhantomData,
                }
            } else {
                unreachable!()
            }
        })
    }
    pub fn as_slice<T: Element>(self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.ptr as *const T, self.len / std::mem::size_of::<T>()) }
    }
    pub fn as_mut_slice<T: Element>(self) -> &'a mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr as *mut T, self.len / std::mem::size_of::<T>()) }
    }
    pub fn len(self) -> usize {
        self.len
    }
}

pub(crate) fn new_buffer(len: usize) -> Idx {
    alloc(Slot::Buf(Rc::new(RefCell::new(vec![0u64; (len + 7) / 8])), len))
}

impl JsArrayBuffer {
    pub fn new<'a, C: Context<'a>>(_: &mut C, size: u32) -> JsResult<'a, JsArrayBuffer> {
        Ok(Handle::make(new_buffer(size as usize)))
    }
}
impl JsBuffer {
    pub fn new<'a, C: Context<'a>>(_: &mut C, size: u32) -> JsResult<'a, JsBuffer> {
        Ok(Handle::make(new_buffer(size as usize)))
    }
}
impl JsError {
    pub fn error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, m: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(Handle::make(alloc(Slot::Error("Error", m.as_ref().to_string()))))
    }
    pub fn type_error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, m: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(Handle::make(alloc(Slot::Error("TypeError", m.as_ref().to_string()))))
    }
    pub fn range_error<'a, C: Context<'a>, S: AsRef<str>>(_: &mut C, m: S) -> NeonResult<Handle<'a, JsError>> {
        Ok(Handle::make(alloc(Slot::Error("RangeError", m.as_ref().to_string()))))
    }
}
