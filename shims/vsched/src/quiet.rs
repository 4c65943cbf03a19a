//! Locks and reference counts of the stand-in crates themselves: no scheduling points, also where
//! their code ends up inside an instrumented crate.
use std::mem::ManuallyDrop;
use std::ops::{Deref, DerefMut};
use std::sync::{Arc as StdArc, Mutex as StdMutex, MutexGuard};

pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let before = crate::hush(true);
    let r = f();
    crate::hush(before);
    r
}

#[derive(Default)]
pub struct Mutex<T>(StdMutex<T>);
pub struct Guard<'a, T>(ManuallyDrop<MutexGuard<'a, T>>);

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex(StdMutex::new(t))
    }
    pub fn lock(&self) -> Guard<'_, T> {
        quiet(|| Guard(ManuallyDrop::new(self.0.lock().unwrap_or_else(|e| e.into_inner()))))
    }
    pub fn into_inner(self) -> T {
        quiet(|| self.0.into_inner().unwrap_or_else(|e| e.into_inner()))
    }
}
impl<T> Drop for Guard<'_, T> {
    fn drop(&mut self) {
        quiet(|| unsafe { ManuallyDrop::drop(&mut self.0) })
    }
}
impl<T> Deref for Guard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T> DerefMut for Guard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

#[derive(Default)]
pub struct Arc<T>(ManuallyDrop<StdArc<T>>);
impl<T> Arc<T> {
    pub fn new(t: T) -> Self {
        Arc(ManuallyDrop::new(StdArc::new(t)))
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Self) -> &mut T {
        quiet(|| StdArc::make_mut(&mut this.0))
    }
}
impl<T> Clone for Arc<T> {
    fn clone(&self) -> Self {
        quiet(|| Arc(ManuallyDrop::new(StdArc::clone(&self.0))))
    }
}
impl<T> Drop for Arc<T> {
    fn drop(&mut self) {
        quiet(|| unsafe { ManuallyDrop::drop(&mut self.0) })
    }
}
impl<T> Deref for Arc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
