//! The JavaScript program's side.
use crate::context::{CallContext, ModuleContext};
use crate::heap::*;
use crate::object::{get_prop, own_names, set_prop, Class};
use crate::result::NeonResult;
use std::cell::RefCell;
use std::collections::HashMap;
use std::marker::PhantomData;
use std::rc::Rc;

pub use crate::heap::{Exception, Performed};
pub type Js = Idx;

type Fun = Rc<dyn Fn(&[Idx]) -> Result<Idx, Exception>>;
type Meth = Rc<dyn Fn(Idx, &[Idx]) -> Result<Idx, Exception>>;

thread_local! {
    static FUNCTIONS: RefCell<HashMap<String, Fun>> = RefCell::new(HashMap::new());
    static METHODS: RefCell<HashMap<(&'static str, String), Meth>> = RefCell::new(HashMap::new());
}

pub(crate) fn add_function(name: &str, f: Box<dyn Fn(&[Idx]) -> Result<Idx, Exception>>) {
    FUNCTIONS.with(|m| m.borrow_mut().insert(name.to_string(), f.into()));
}

pub(crate) fn add_methods<T: Class>() {
    for (name, f) in T::methods() {
        METHODS.with(|m| {
            m.borrow_mut().insert(
                (T::NAME, name.to_string()),
                Rc::new(move |this: Idx, args: &[Idx]| {
                    outcome(f(CallContext::make(this, args)).map(|h| h.index()))
                }),
            )
        });
    }
}

/// a fresh heap, with the module loaded
pub fn start(module: fn(ModuleContext<'_>) -> NeonResult<()>) {
    let old = STATE.with(|s| std::mem::take(&mut *s.borrow_mut()));
    drop(old);
    FUNCTIONS.with(|m| m.borrow_mut().clear());
    METHODS.with(|m| m.borrow_mut().clear());
    module(ModuleContext(PhantomData)).expect("the module must load");
}

/// forgets everything, as at the end of the process
pub fn end() {
    let old = STATE.with(|s| std::mem::take(&mut *s.borrow_mut()));
    drop(old);
}

pub fn undefined() -> Js {
    alloc(Slot::Undefined)
}
pub fn null() -> Js {
    alloc(Slot::Null)
}
pub fn boolean(b: bool) -> Js {
    alloc(Slot::Bool(b))
}
pub fn number(v: f64) -> Js {
    alloc(Slot::Num(v))
}
pub fn string(s: &str) -> Js {
    alloc(Slot::Str(s.to_string()))
}
pub fn array(items: &[Js]) -> Js {
    alloc(Slot::Arr(items.iter().map(|i| Prop::Value(*i)).collect()))
}
pub fn object(props: &[(&str, Js)]) -> Js {
    alloc(Slot::Obj(props.iter().map(|p| (p.0.to_string(), Prop::Value(p.1))).collect()))
}
pub fn words(values: &[u32]) -> Js {
    let b = crate::types::new_buffer(values.len() * 4);
    crate::types::BinaryData::of(b).as_mut_slice::<u32>().copy_from_slice(values);
    b
}
pub fn bytes(values: &[u8]) -> Js {
    let b = crate::types::new_buffer(values.len());
    crate::types::BinaryData::of(b).as_mut_slice::<u8>().copy_from_slice(values);
    b
}
pub fn function(f: impl Fn(&[Js]) + 'static) -> Js {
    alloc(Slot::Func(Rc::new(f)))
}
pub fn set(o: Js, key: &str, v: Js) {
    set_prop(o, key, v)
}
pub fn remove(o: Js, key: &str) {
    with_mut(o, |s| match s {
        Slot::Obj(ps) | Slot::Inst(_, _, _, ps) => ps.retain(|p| p.0 != key),
        _ => {}
    })
}
/// reading this property throws from now on
pub fn set_throwing(o: Js, key: &str) {
    set_prop(o, key, 0);
    with_mut(o, |s| match s {
        Slot::Obj(ps) | Slot::Inst(_, _, _, ps) => {
            ps.iter_mut().find(|p| p.0 == key).unwrap().1 = Prop::Throws
        }
        Slot::Arr(v) => v[key.parse::<usize>().unwrap()] = Prop::Throws,
        _ => {}
    })
}
pub fn truncate(a: Js, n: usize) {
    with_mut(a, |s| {
        if let Slot::Arr(v) = s {
            v.truncate(n)
        }
    })
}
pub fn fill_words(b: Js, v: u32) {
    for w in crate::types::BinaryData::of(b).as_mut_slice::<u32>() {
        *w = v;
    }
}

/// a value seen whole
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Arr(Vec<Val>),
    /// in the order of the names
    Obj(Vec<(String, Val)>),
    Bytes(Vec<u8>),
    Func,
    Error(String, String),
    Inst(String),
}

impl Val {
    pub fn get(&self, key: &str) -> &Val {
        match self {
            Val::Obj(ps) => ps.iter().find(|p| p.0 == key).map_or(&Val::Undefined, |p| &p.1),
            _ => &Val::Undefined,
        }
    }
    pub fn items(&self) -> &[Val] {
        match self {
            Val::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn num(&self) -> f64 {
        match self {
            Val::Num(v) => *v,
            _ => f64::NAN,
        }
    }
}

pub fn look(v: Js) -> Val {
    let s = with(v, |s| s.clone());
    match s {
        Slot::Undefined => Val::Undefined,
        Slot::Null => Val::Null,
        Slot::Bool(b) => Val::Bool(b),
        Slot::Num(n) => Val::Num(n),
        Slot::Str(s) => Val::Str(s),
        Slot::Arr(items) => Val::Arr(
            items.iter().map(|p| if let Prop::Value(v) = p { look(*v) } else { Val::Undefined }).collect(),
        ),
        Slot::Obj(ps) => {
            let mut out: Vec<_> = ps
                .iter()
                .map(|(k, p)| (k.clone(), if let Prop::Value(v) = p { look(*v) } else { Val::Undefined }))
                .collect();
            out.sort_by(|a, b| a.0.cmp(&b.0));
            Val::Obj(out)
        }
        Slot::Buf(..) => Val::Bytes(crate::types::BinaryData::of(v).as_slice::<u8>().to_vec()),
        Slot::Func(_) => Val::Func,
        Slot::Error(k, m) => Val::Error(k.to_string(), m),
        Slot::Inst(name, ..) => Val::Inst(name.to_string()),
    }
}

pub fn to_text(v: Js) -> String {
    match look(v) {
        Val::Undefined => "undefined".into(),
        Val::Null => "null".into(),
        Val::Bool(b) => b.to_string(),
        Val::Num(n) => n.to_string(),
        Val::Str(s) => s,
        Val::Error(k, m) => format!("{}: {}", k, m),
        Val::Arr(_) | Val::Obj(_) | Val::Bytes(_) | Val::Func | Val::Inst(_) => "[object]".into(),
    }
}

pub fn get(o: Js, key: &str) -> Js {
    get_prop(o, key).expect("no getter throws here")
}
pub fn names(o: Js) -> Vec<String> {
    own_names(o)
}

pub fn construct(class: &str, args: &[Js]) -> Result<Js, Exception> {
    let c = STATE.with(|s| s.borrow().classes.iter().find(|c| c.0 == class).map(|c| c.1));
    match c {
        Some(c) => c(args),
        None => Err(Exception { kind: "TypeError", message: format!("{} is not a constructor", class) }),
    }
}

pub fn call(function: &str, args: &[Js]) -> Result<Js, Exception> {
    match FUNCTIONS.with(|m| m.borrow().get(function).cloned()) {
        Some(f) => f(args),
        None => Err(Exception { kind: "TypeError", message: format!("{} is not a function", function) }),
    }
}

pub fn method(this: Js, name: &str, args: &[Js]) -> Result<Js, Exception> {
    let class = with(this, |s| if let Slot::Inst(c, ..) = s { Some(*c) } else { None });
    let m = class.and_then(|c| METHODS.with(|m| m.borrow().get(&(c, name.to_string())).cloned()));
    match m {
        Some(m) => m(this, args),
        None => Err(Exception { kind: "TypeError", message: format!("{} is not a function", name) }),
    }
}

/// the garbage collector takes an object of a class
pub fn collect(v: Js) {
    let gone = with_mut(v, |s| if let Slot::Inst(_, _, c, _) = s { c.take() } else { None });
    drop(gone);
}

/// tasks that have been scheduled and not yet run
pub fn tasks() -> usize {
    STATE.with(|s| s.borrow().tasks.len())
}
/// takes the i-th task from the queue
pub fn take_task(i: usize) -> Pending {
    STATE.with(|s| s.borrow_mut().tasks.remove(i))
}
/// runs it, as a thread of the pool does
pub fn perform(t: Pending) -> Performed {
    Performed { complete: (t.perform)(), callback: t.callback }
}
/// completes it on the main thread and calls the callback with (error) or (null, value)
pub fn complete(p: Performed) {
    let r = (p.complete)();
    let f = with(p.callback, |s| if let Slot::Func(f) = s { Some(f.clone()) } else { None });
    let f = f.expect("the callback is a function");
    match r {
        Ok(v) => f(&[null(), v]),
        Err(e) => f(&[alloc(Slot::Error(e.kind, e.message))]),
    }
}
