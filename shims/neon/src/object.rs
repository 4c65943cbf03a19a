use crate::context::{CallContext, Context};
use crate::handle::{Handle, Managed};
use crate::heap::{alloc, throw, with, with_mut, Idx, Prop, Slot};
use crate::result::{JsResult, NeonResult, Throw};
use crate::types::{JsArray, JsString, JsUndefined, JsValue, Value};

pub trait PropertyKey {
    fn name(self) -> String;
}
impl PropertyKey for u32 {
    fn name(self) -> String {
        self.to_string()
    }
}
impl<'a> PropertyKey for &'a str {
    fn name(self) -> String {
        self.to_string()
    }
}
impl<'a> PropertyKey for &'a String {
    fn name(self) -> String {
        self.clone()
    }
}
impl<'a, T: Value> PropertyKey for Handle<'a, T> {
    fn name(self) -> String {
        crate::js::to_text(self.index())
    }
}

pub fn get_prop(i: Idx, key: &str) -> Result<Idx, Throw> {
    let p = with(i, |s| match s {
        Slot::Obj(ps) | Slot::Inst(_, _, _, ps) => {
            ps.iter().find(|p| p.0 == key).map(|p| p.1.clone())
        }
        Slot::Arr(v) => key.parse::<usize>().ok().and_then(|k| v.get(k).cloned()),
        _ => None,
    });
    if let (None, "length") = (&p, key) {
        let n = with(i, |s| if let Slot::Arr(v) = s { Some(v.len()) } else { None });
        if let Some(n) = n {
            return Ok(alloc(Slot::Num(n as f64)));
        }
    }
    match p {
        Some(Prop::Value(v)) => Ok(v),
        Some(Prop::Throws) => {
            throw("Error", "the getter threw".to_string());
            Err(Throw)
        }
        None => Ok(alloc(Slot::Undefined)),
    }
}

pub fn set_prop(i: Idx, key: &str, v: Idx) {
    let undefined = alloc(Slot::Undefined);
    with_mut(i, |s| match s {
        Slot::Obj(ps) | Slot::Inst(_, _, _, ps) => match ps.iter_mut().find(|p| p.0 == key) {
            Some(p) => p.1 = Prop::Value(v),
            None => ps.push((key.to_string(), Prop::Value(v))),
        },
        Slot::Arr(items) => {
            if let Ok(k) = key.parse::<usize>() {
                while items.len() <= k {
                    items.push(Prop::Value(undefined));
                }
                items[k] = Prop::Value(v);
            }
        }
        _ => {}
    })
}

pub fn own_names(i: Idx) -> Vec<String> {
    with(i, |s| match s {
        Slot::Obj(ps) | Slot::Inst(_, _, _, ps) => ps.iter().map(|p| p.0.clone()).collect(),
        Slot::Arr(v) => (0..v.len()).map(|k| k.to_string()).collect(),
        _ => Vec::new(),
    })
}

pub trait Object: Value {
    fn get<'a, C: Context<'a>, K: PropertyKey>(self, _: &mut C, key: K) -> NeonResult<Handle<'a, JsValue>> {
        get_prop(self.idx(), &key.name()).map(Handle::make)
    }
    fn get_own_property_names<'a, C: Context<'a>>(self, cx: &mut C) -> JsResult<'a, JsArray> {
        let out = JsArray::new(cx, 0);
        for (i, n) in own_names(self.idx()).into_iter().enumerate() {
            let s = JsString::new(cx, n);
            out.set(cx, i as u32, s)?;
        }
        Ok(out)
    }
    fn set<'a, C: Context<'a>, K: PropertyKey, W: Value>(
        self,
        _: &mut C,
        key: K,
        val: Handle<'_, W>,
    ) -> NeonResult<bool> {
        set_prop(self.idx(), &key.name(), val.index());
        Ok(true)
    }
}

/// what `this` may be
pub trait This: Managed + 'static {}
impl<T: Value> This for T {}

pub type MethodFn<T> = for<'a> fn(CallContext<'a, T>) -> JsResult<'a, JsValue>;

pub trait Class: Value + Object {
    type Internals: 'static;
    const NAME: &'static str;
    fn construct<'a>(cx: CallContext<'a, JsUndefined>) -> NeonResult<Self::Internals>;
    fn methods() -> Vec<(&'static str, MethodFn<Self>)>;

    /// makes an object as `new` does
    fn new<'a, 'b, C: Context<'a>, A, AS>(_: &mut C, args: AS) -> JsResult<'a, Self>
    where
        A: Value + 'b,
        AS: IntoIterator<Item = Handle<'b, A>>,
    {
        let args: Vec<Idx> = args.into_iter().map(|h| h.index()).collect();
        make::<Self>(&args).map(Handle::make)
    }
}

pub(crate) fn make<T: Class>(args: &[Idx]) -> Result<Idx, Throw> {
    let cx = CallContext::make(alloc(Slot::Undefined), args);
    let v = T::construct(cx)?;
    Ok(alloc(Slot::Inst(
        T::NAME,
        std::any::TypeId::of::<T>(),
        Some(std::rc::Rc::new(std::cell::RefCell::new(Box::new(v)))),
        Vec::new(),
    )))
}
