use crate::handle::Managed;
use crate::heap::{with, Idx, Slot};
use crate::object::Class;
use crate::types::{BinaryData, JsArrayBuffer, JsBuffer};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;

pub struct Lock<'a>(pub(crate) PhantomData<&'a ()>);

#[derive(Debug)]
pub enum LoanError {
    Mutating,
    Frozen,
}
impl fmt::Display for LoanError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            LoanError::Mutating => write!(f, "outstanding mutable loan exists for object"),
            LoanError::Frozen => write!(f, "object is frozen"),
        }
    }
}
impl std::error::Error for LoanError {}

type Cell = Rc<RefCell<Box<dyn Any>>>;

pub struct Ref<'a, T: 'static> {
    guard: Option<std::cell::Ref<'static, T>>,
    _cell: Cell,
    phantom: PhantomData<&'a T>,
}
pub struct RefMut<'a, T: 'static> {
    guard: Option<std::cell::RefMut<'static, T>>,
    _cell: Cell,
    phantom: PhantomData<&'a mut T>,
}
impl<'a, T> Deref for Ref<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.guard.as_ref().unwrap()
    }
}
impl<'a, T> Deref for RefMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.guard.as_ref().unwrap()
    }
}
impl<'a, T> DerefMut for RefMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.guard.as_mut().unwrap()
    }
}
// the guard goes before the cell it points into
impl<'a, T> Drop for Ref<'a, T> {
    fn drop(&mut self) {
        self.guard = None;
    }
}
impl<'a, T> Drop for RefMut<'a, T> {
    fn drop(&mut self) {
        self.guard = None;
    }
}

pub trait Borrow {
    type Loan<'a>;
    fn try_borrow<'a>(&self, lock: &'a Lock<'a>) -> Result<Self::Loan<'a>, LoanError>;
    fn borrow<'a>(&self, lock: &'a Lock<'a>) -> Self::Loan<'a> {
        match self.try_borrow(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}
pub trait BorrowMut {
    type LoanMut<'a>;
    fn try_borrow_mut<'a>(&self, lock: &'a Lock<'a>) -> Result<Self::LoanMut<'a>, LoanError>;
    fn borrow_mut<'a>(&self, lock: &'a Lock<'a>) -> Self::LoanMut<'a> {
        match self.try_borrow_mut(lock) {
            Ok(r) => r,
            Err(e) => panic!("{}", e),
        }
    }
}

fn cell(i: Idx) -> Cell {
    with(i, |s| match s {
        Slot::Inst(_, _, Some(c), _) => c.clone(),
        Slot::Inst(name, _, None, _) => panic!("a {} was used after it was collected", name),
        _ => unreachable!(),
    })
}

impl<T: Class> Borrow for T {
    type Loan<'a> = Ref<'a, T::Internals>;
    fn try_borrow<'a>(&self, _: &'a Lock<'a>) -> Result<Ref<'a, T::Internals>, LoanError> {
        let c = cell(self.idx());
        let g = match c.try_borrow() {
            Ok(g) => std::cell::Ref::map(g, |b| b.downcast_ref::<T::Internals>().unwrap()),
            Err(_) => return Err(LoanError::Mutating),
        };
        let g: std::cell::Ref<'static, T::Internals> = unsafe { std::mem::transmute(g) };
        Ok(Ref { guard: Some(g), _cell: c, phantom: PhantomData })
    }
}
impl<T: Class> BorrowMut for T {
    type LoanMut<'a> = RefMut<'a, T::Internals>;
    fn try_borrow_mut<'a>(&self, _: &'a Lock<'a>) -> Result<RefMut<'a, T::Internals>, LoanError> {
        let c = cell(self.idx());
        let g = match c.try_borrow_mut() {
            Ok(g) => std::cell::RefMut::map(g, |b| b.downcast_mut::<T::Internals>().unwrap()),
            Err(_) => return Err(LoanError::Frozen),
        };
        let g: std::cell::RefMut<'static, T::Internals> = unsafe { std::mem::transmute(g) };
        Ok(RefMut { guard: Some(g), _cell: c, phantom: PhantomData })
    }
}

/// the memory of a buffer, on loan
pub struct BufLoan<'a>(BinaryData<'a>);
impl<'a> Deref for BufLoan<'a> {
    type Target = BinaryData<'a>;
    fn deref(&self) -> &BinaryData<'a> {
        &self.0
    }
}
impl<'a> DerefMut for BufLoan<'a> {
    fn deref_mut(&mut self) -> &mut BinaryData<'a> {
        &mut self.0
    }
}

macro_rules! buffers {
    ($($t:ident),*) => { $(
        impl Borrow for $t {
            type Loan<'a> = BufLoan<'a>;
            fn try_borrow<'a>(&self, _: &'a Lock<'a>) -> Result<BufLoan<'a>, LoanError> {
                Ok(BufLoan(BinaryData::of(self.idx())))
            }
        }
        impl BorrowMut for $t {
            type LoanMut<'a> = BufLoan<'a>;
            fn try_borrow_mut<'a>(&self, _: &'a Lock<'a>) -> Result<BufLoan<'a>, LoanError> {
                Ok(BufLoan(BinaryData::of(self.idx())))
            }
        }
    )* };
}
buffers!(JsArrayBuffer, JsBuffer);
