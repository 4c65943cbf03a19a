//! Stand-in for neon-serde: the same conversions between JavaScript values and serde.
use neon::prelude::*;
use serde::de::DeserializeOwned;
use serde::Serialize;

pub mod de;
pub mod errors;
pub mod ser;

use errors::Result;

pub fn from_value<'j, C, T>(cx: &mut C, value: Handle<'j, JsValue>) -> Result<T>
where
    C: Context<'j>,
    T: DeserializeOwned + ?Sized,
{
    let mut d = de::Deserializer::new(cx, value);
    T::deserialize(&mut d)
}

pub fn from_value_opt<'j, C, T>(cx: &mut C, value: Option<Handle<'j, JsValue>>) -> Result<T>
where
    C: Context<'j>,
    T: DeserializeOwned + ?Sized,
{
    let value = value.unwrap_or_else(|| JsUndefined::new().upcast());
    from_value(cx, value)
}

pub fn to_value<'j, C, V>(cx: &mut C, value: &V) -> Result<Handle<'j, JsValue>>
where
    C: Context<'j>,
    V: Serialize + ?Sized,
{
    value.serialize(ser::Serializer { cx, phantom: std::marker::PhantomData })
}
