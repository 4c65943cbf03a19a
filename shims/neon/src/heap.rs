use std::any::{Any, TypeId};
use std::cell::RefCell;
use std::rc::Rc;

pub type Idx = u32;

pub type Callback = Rc<dyn Fn(&[Idx])>;

#[derive(Clone)]
pub enum Prop {
    Value(Idx),
    /// a getter that throws
    Throws,
}

#[derive(Clone)]
pub enum Slot {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Obj(Vec<(String, Prop)>),
    Arr(Vec<Prop>),
    /// 8-byte aligned memory, and its length in bytes
    Buf(Rc<RefCell<Vec<u64>>>, usize),
    Func(Callback),
    Error(&'static str, String),
    /// object of a class: its name, the type of the Rust value, and the value unless collected
    Inst(&'static str, TypeId, Option<Rc<RefCell<Box<dyn Any>>>>, Vec<(String, Prop)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Exception {
    pub kind: &'static str,
    pub message: String,
}

pub type Constructor = fn(&[Idx]) -> Result<Idx, Exception>;
pub type Function = fn(&[Idx]) -> Result<Idx, Exception>;
pub type Method = fn(Idx, &[Idx]) -> Result<Idx, Exception>;

pub struct Pending {
    pub perform: Box<dyn FnOnce() -> Box<dyn FnOnce() -> Result<Idx, Exception> + Send> + Send>,
    pub callback: Idx,
}

pub struct Performed {
    pub complete: Box<dyn FnOnce() -> Result<Idx, Exception> + Send>,
    pub callback: Idx,
}

#[derive(Default)]
pub struct State {
    pub slots: Vec<Slot>,
    pub pending: Option<Exception>,
    pub classes: Vec<(String, Constructor)>,
    pub functions: Vec<(String, Function)>,
    pub values: Vec<(String, Idx)>,
    pub tasks: Vec<Pending>,
}

thread_local! {
    pub static STATE: RefCell<State> = RefCell::new(State::default());
}

pub fn alloc(s: Slot) -> Idx {
    STATE.with(|h| {
        let mut h = h.borrow_mut();
        h.slots.push(s);
        (h.slots.len() - 1) as Idx
    })
}

pub fn with<R>(i: Idx, f: impl FnOnce(&Slot) -> R) -> R {
    STATE.with(|h| f(&h.borrow().slots[i as usize]))
}

pub fn with_mut<R>(i: Idx, f: impl FnOnce(&mut Slot) -> R) -> R {
    STATE.with(|h| f(&mut h.borrow_mut().slots[i as usize]))
}

pub fn throw(kind: &'static str, message: String) {
    // a later exception takes the place of one that is pending
    STATE.with(|h| h.borrow_mut().pending = Some(Exception { kind, message }))
}

pub fn take_exception() -> Option<Exception> {
    STATE.with(|h| h.borrow_mut().pending.take())
}

/// what a native function returned, as node sees it: a pending exception is thrown whatever the
/// function returned
pub fn outcome(r: Result<Idx, crate::result::Throw>) -> Result<Idx, Exception> {
    match (r, take_exception()) {
        (_, Some(e)) => Err(e),
        (Ok(v), None) => Ok(v),
        (Err(_), None) => panic!("a Throw was returned without an exception"),
    }
}
