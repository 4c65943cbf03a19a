//! Stand-in for owning_ref: OwningHandle over owners whose target does not move.
use std::ops::{Deref, DerefMut};

pub unsafe trait StableAddress: Deref {}
unsafe impl<T: ?Sized> StableAddress for std::sync::Arc<T> {}
unsafe impl<T: ?Sized> StableAddress for std::rc::Rc<T> {}
unsafe impl<T: ?Sized> StableAddress for Box<T> {}
unsafe impl<T> StableAddress for Vec<T> {}
unsafe impl StableAddress for String {}

pub struct OwningHandle<O: StableAddress, H: Deref> {
    // the handle goes before its owner
    handle: H,
    owner: O,
}

impl<O: StableAddress, H: Deref> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(owner: O, f: F) -> Self {
        let p: *const O::Target = &*owner;
        let handle = f(p);
        OwningHandle { handle, owner }
    }
    pub fn try_new<F: FnOnce(*const O::Target) -> Result<H, E>, E>(owner: O, f: F) -> Result<Self, E> {
        let p: *const O::Target = &*owner;
        let handle = f(p)?;
        Ok(OwningHandle { handle, owner })
    }
    pub fn as_owner(&self) -> &O {
        &self.owner
    }
    pub fn into_owner(self) -> O {
        self.owner
    }
}

impl<O: StableAddress, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        &*self.handle
    }
}
impl<O: StableAddress, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        &mut *self.handle
    }
}
