use crate::context::Context;
use crate::heap::Idx;
use crate::result::{JsResult, JsResultExt, NeonResult};
use crate::types::{JsValue, Value};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};

pub trait Managed: Copy {
    fn idx(self) -> Idx;
    fn from_idx(i: Idx) -> Self;
}

pub struct Handle<'a, T: Copy + 'a> {
    value: T,
    phantom: PhantomData<&'a T>,
}

impl<'a, T: Copy> Clone for Handle<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T: Copy> Copy for Handle<'a, T> {}

impl<'a, T: Copy> fmt::Debug for Handle<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Handle")
    }
}

impl<'a, T: Copy> Deref for Handle<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<'a, T: Copy> DerefMut for Handle<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.value
    }
}

impl<'a, T: Managed> Handle<'a, T> {
    pub fn make(i: Idx) -> Handle<'a, T> {
        Handle { value: T::from_idx(i), phantom: PhantomData }
    }
    pub fn index(&self) -> Idx {
        self.value.idx()
    }
}

pub struct DowncastError<F: Value, T: Value> {
    f: PhantomData<F>,
    t: PhantomData<T>,
}
impl<F: Value, T: Value> fmt::Debug for DowncastError<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "DowncastError")
    }
}

impl<F: Value, T: Value> fmt::Display for DowncastError<F, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "failed downcast to {}", T::name())
    }
}
impl<F: Value, T: Value> std::error::Error for DowncastError<F, T> {}

pub type DowncastResult<'a, F, T> = Result<Handle<'a, T>, DowncastError<F, T>>;

impl<'a, F: Value, T: Value> JsResultExt<'a, T> for DowncastResult<'a, F, T> {
    fn or_throw<'b, C: Context<'b>>(self, cx: &mut C) -> JsResult<'a, T> {
        match self {
            Ok(v) => Ok(v),
            Err(e) => cx.throw_type_error(e.to_string()),
        }
    }
}

impl<'a, T: Value> Handle<'a, T> {
    pub fn upcast<U: Value>(&self) -> Handle<'a, U>
    where
        T: Upcast<U>,
    {
        Handle::make(self.index())
    }

    pub fn is_a<U: Value>(&self) -> bool {
        U::is_typeof(self.index())
    }

    pub fn downcast<U: Value>(&self) -> DowncastResult<'a, T, U> {
        if U::is_typeof(self.index()) {
            Ok(Handle::make(self.index()))
        } else {
            Err(DowncastError { f: PhantomData, t: PhantomData })
        }
    }

    pub fn downcast_or_throw<'b, U: Value, C: Context<'b>>(&self, cx: &mut C) -> JsResult<'a, U> {
        self.downcast().or_throw(cx)
    }

    pub fn strict_equals<U: Value>(&self, other: Handle<'_, U>) -> bool {
        self.index() == other.index()
    }
}

/// every value is a JsValue; objects are JsObjects
pub trait Upcast<U> {}
impl<T: Value> Upcast<JsValue> for T {}
impl<T: crate::object::Object> Upcast<crate::types::JsObject> for T {}

impl<'a, T: Value> Handle<'a, T> {
    pub fn to_string<'b, C: Context<'b>>(self, cx: &mut C) -> NeonResult<Handle<'b, crate::types::JsString>> {
        let s = crate::js::to_text(self.index());
        Ok(cx.string(s))
    }
}
