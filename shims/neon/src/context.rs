use crate::borrow::{Borrow, BorrowMut, Lock};
use crate::handle::{Handle, Managed};
use crate::heap::{alloc, throw, with, Exception, Idx, Slot, STATE};
use crate::object::{Class, This};
use crate::result::{JsResult, JsResultExt, NeonResult, Throw};
use crate::types::*;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug)]
pub enum CallKind {
    Construct,
    Call,
}

pub struct CallContext<'a, T: This> {
    this: Idx,
    args: Vec<Idx>,
    phantom: PhantomData<(&'a (), T)>,
}

pub type FunctionContext<'a> = CallContext<'a, JsObject>;
pub type MethodContext<'a, T> = CallContext<'a, T>;

pub struct TaskContext<'a>(pub(crate) PhantomData<&'a ()>);
pub struct ExecuteContext<'a>(PhantomData<&'a ()>);
pub struct ComputeContext<'a>(PhantomData<&'a ()>);
pub struct ModuleContext<'a>(pub(crate) PhantomData<&'a ()>);

impl<'a, T: This> CallContext<'a, T> {
    pub fn make(this: Idx, args: &[Idx]) -> Self {
        CallContext { this, args: args.to_vec(), phantom: PhantomData }
    }
    pub fn kind(&self) -> CallKind {
        CallKind::Call
    }
    pub fn len(&self) -> i32 {
        self.args.len() as i32
    }
    pub fn argument_opt(&mut self, i: i32) -> Option<Handle<'a, JsValue>> {
        self.args.get(i as usize).map(|v| Handle::make(*v))
    }
    pub fn argument<V: Value>(&mut self, i: i32) -> JsResult<'a, V> {
        match self.args.get(i as usize).cloned() {
            Some(v) => {
                let v: Handle<'a, JsValue> = Handle::make(v);
                v.downcast::<V>().or_throw(self)
            }
            None => self.throw_type_error("not enough arguments"),
        }
    }
    pub fn this(&mut self) -> Handle<'a, T> {
        Handle::make(self.this)
    }
}

pub trait Context<'a>: Sized {
    fn lock(&self) -> Lock<'_> {
        Lock(PhantomData)
    }
    fn borrow<'c, V: Value + Borrow, T, F>(&self, v: &'c Handle<V>, f: F) -> T
    where
        F: FnOnce(V::Loan<'_>) -> T,
    {
        let lock = self.lock();
        let v: V = **v;
        let loan = v.borrow(&lock);
        f(loan)
    }
    fn borrow_mut<'c, V: Value + BorrowMut, T, F>(&self, v: &'c mut Handle<V>, f: F) -> T
    where
        F: FnOnce(V::LoanMut<'_>) -> T,
    {
        let lock = self.lock();
        let v: V = **v;
        let loan = v.borrow_mut(&lock);
        f(loan)
    }
    fn execute_scoped<T, F: for<'b> FnOnce(ExecuteContext<'b>) -> T>(&self, f: F) -> T {
        f(ExecuteContext(PhantomData))
    }
    fn compute_scoped<V: Value, F>(&self, f: F) -> JsResult<'a, V>
    where
        F: for<'b> FnOnce(ComputeContext<'b>) -> JsResult<'b, V>,
    {
        f(ComputeContext(PhantomData)).map(|h| Handle::make(h.index()))
    }
    fn try_catch<T, F: FnOnce(&mut Self) -> NeonResult<T>>(&mut self, f: F) -> Result<T, Handle<'a, JsValue>> {
        f(self).map_err(|_| {
            let e = crate::heap::take_exception().expect("an exception is pending");
            Handle::make(alloc(Slot::Error(e.kind, e.message)))
        })
    }
    fn boolean(&mut self, b: bool) -> Handle<'a, JsBoolean> {
        JsBoolean::new(self, b)
    }
    fn number<T: Into<f64>>(&mut self, v: T) -> Handle<'a, JsNumber> {
        JsNumber::new(self, v)
    }
    fn string<S: AsRef<str>>(&mut self, s: S) -> Handle<'a, JsString> {
        JsString::new(self, s)
    }
    fn try_string<S: AsRef<str>>(&mut self, s: S) -> Result<Handle<'a, JsString>, StringOverflow> {
        JsString::try_new(self, s)
    }
    fn null(&mut self) -> Handle<'a, JsNull> {
        JsNull::new()
    }
    fn undefined(&mut self) -> Handle<'a, JsUndefined> {
        JsUndefined::new()
    }
    fn empty_object(&mut self) -> Handle<'a, JsObject> {
        JsObject::new(self)
    }
    fn empty_array(&mut self) -> Handle<'a, JsArray> {
        JsArray::new(self, 0)
    }
    fn array_buffer(&mut self, size: u32) -> JsResult<'a, JsArrayBuffer> {
        JsArrayBuffer::new(self, size)
    }
    fn buffer(&mut self, size: u32) -> JsResult<'a, JsBuffer> {
        JsBuffer::new(self, size)
    }
    fn throw<T, V: Value>(&mut self, v: Handle<'_, V>) -> NeonResult<T> {
        let (kind, m) = with(v.index(), |s| match s {
            Slot::Error(k, m) => (*k, m.clone()),
            _ => ("value", String::new()),
        });
        throw(kind, m);
        Err(Throw)
    }
    fn error<S: AsRef<str>>(&mut self, m: S) -> JsResult<'a, JsError> {
        JsError::error(self, m)
    }
    fn type_error<S: AsRef<str>>(&mut self, m: S) -> JsResult<'a, JsError> {
        JsError::type_error(self, m)
    }
    fn range_error<S: AsRef<str>>(&mut self, m: S) -> JsResult<'a, JsError> {
        JsError::range_error(self, m)
    }
    fn throw_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> {
        throw("Error", m.as_ref().to_string());
        Err(Throw)
    }
    fn throw_type_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> {
        throw("TypeError", m.as_ref().to_string());
        Err(Throw)
    }
    fn throw_range_error<S: AsRef<str>, T>(&mut self, m: S) -> NeonResult<T> {
        throw("RangeError", m.as_ref().to_string());
        Err(Throw)
    }
}

impl<'a, T: This> Context<'a> for CallContext<'a, T> {}
impl<'a> Context<'a> for TaskContext<'a> {}
impl<'a> Context<'a> for ExecuteContext<'a> {}
impl<'a> Context<'a> for ComputeContext<'a> {}
impl<'a> Context<'a> for ModuleContext<'a> {}

impl<'a> ModuleContext<'a> {
    pub fn export_class<T: Class>(&mut self, name: &str) -> NeonResult<()> {
        fn construct<T: Class>(args: &[Idx]) -> Result<Idx, Exception> {
            crate::heap::outcome(crate::object::make::<T>(args))
        }
        STATE.with(|s| s.borrow_mut().classes.push((name.to_string(), construct::<T>)));
        crate::js::add_methods::<T>();
        Ok(())
    }
    pub fn export_function<V: Value>(
        &mut self,
        name: &str,
        f: for<'b> fn(FunctionContext<'b>) -> JsResult<'b, V>,
    ) -> NeonResult<()> {
        crate::js::add_function(name, Box::new(move |args: &[Idx]| {
            let this = alloc(Slot::Undefined);
            crate::heap::outcome(f(CallContext::make(this, args)).map(|h| h.index()))
        }));
        Ok(())
    }
    pub fn export_value<V: Value>(&mut self, name: &str, v: Handle<'_, V>) -> NeonResult<()> {
        STATE.with(|s| s.borrow_mut().values.push((name.to_string(), v.index())));
        Ok(())
    }
}
