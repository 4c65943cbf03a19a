use crate::errors::{Error, ErrorKind, Result};
use neon::prelude::*;
use serde::de::{
    DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor,
};
use std::marker::PhantomData;

pub struct Deserializer<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    input: Handle<'j, JsValue>,
    phantom: PhantomData<&'j ()>,
}

impl<'x, 'j, C: Context<'j>> Deserializer<'x, 'j, C> {
    pub fn new(cx: &'x mut C, input: Handle<'j, JsValue>) -> Self {
        Deserializer { cx, input, phantom: PhantomData }
    }
}

fn custom<T>(m: &str) -> Result<T> {
    Err(Error(ErrorKind::Msg(m.to_string())))
}

impl<'de, 'x, 'd, 'j, C: Context<'j>> serde::Deserializer<'de> for &'d mut Deserializer<'x, 'j, C> {
    type Error = Error;

    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        let input = self.input;
        if input.is_a::<JsNull>() || input.is_a::<JsUndefined>() {
            visitor.visit_unit()
        } else if let Ok(v) = input.downcast::<JsBoolean>() {
            visitor.visit_bool(v.value())
        } else if let Ok(v) = input.downcast::<JsString>() {
            visitor.visit_string(v.value())
        } else if let Ok(v) = input.downcast::<JsNumber>() {
            let v = v.value();
            if v.trunc() == v {
                visitor.visit_i64(v as i64)
            } else {
                visitor.visit_f64(v)
            }
        } else if let Ok(v) = input.downcast::<JsArray>() {
            let mut seq = Seq { cx: self.cx, array: v, next: 0, phantom: PhantomData };
            visitor.visit_seq(&mut seq)
        } else if let Ok(v) = input.downcast::<JsObject>() {
            let mut map = Map::new(self.cx, v)?;
            visitor.visit_map(&mut map)
        } else {
            Err(Error(ErrorKind::NotImplemented("unknown type")))
        }
    }

    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        if self.input.is_a::<JsNull>() || self.input.is_a::<JsUndefined>() {
            visitor.visit_none()
        } else {
            visitor.visit_some(self)
        }
    }

    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value> {
        v.visit_newtype_struct(self)
    }

    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        visitor: V,
    ) -> Result<V::Value> {
        if let Ok(v) = self.input.downcast::<JsString>() {
            let s = v.value();
            visitor.visit_enum(Enum { cx: self.cx, variant: s, content: None })
        } else if let Ok(v) = self.input.downcast::<JsObject>() {
            let names = v.get_own_property_names(self.cx)?.to_vec(self.cx)?;
            if names.len() != 1 {
                return custom(&format!("object key length must be 1, not {}", names.len()));
            }
            let key = names[0].downcast::<JsString>().or_throw(self.cx)?;
            let content = v.get(self.cx, key)?;
            visitor.visit_enum(Enum { cx: self.cx, variant: key.value(), content: Some(content) })
        } else {
            custom("expected a string or an object for an enum")
        }
    }

    fn deserialize_bytes<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        let b = self.input.downcast::<JsArrayBuffer>().or_throw(self.cx)?;
        let copy = {
            let lock = self.cx.lock();
            let copy = b.borrow(&lock).as_slice::<u8>().to_vec();
            copy
        };
        visitor.visit_bytes(&copy)
    }

    fn deserialize_byte_buf<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        self.deserialize_bytes(visitor)
    }

    fn deserialize_ignored_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value> {
        visitor.visit_unit()
    }

    serde::forward_to_deserialize_any! {
        <V: Visitor<'de>>
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string unit unit_struct seq tuple
        tuple_struct map struct identifier
    }
}

struct Seq<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    array: Handle<'j, JsArray>,
    next: u32,
    phantom: PhantomData<&'j ()>,
}

impl<'de, 'x, 'j, C: Context<'j>> SeqAccess<'de> for Seq<'x, 'j, C> {
    type Error = Error;
    fn size_hint(&self) -> Option<usize> {
        Some((self.array.len() - self.next) as usize)
    }
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>> {
        if self.next >= self.array.len() {
            return Ok(None);
        }
        let v = self.array.get(self.cx, self.next)?;
        self.next += 1;
        let mut d = Deserializer::new(self.cx, v);
        seed.deserialize(&mut d).map(Some)
    }
}

struct Map<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    object: Handle<'j, JsObject>,
    keys: Vec<Handle<'j, JsValue>>,
    key_idx: usize,
    val_idx: usize,
}

impl<'x, 'j, C: Context<'j>> Map<'x, 'j, C> {
    fn new(cx: &'x mut C, object: Handle<'j, JsObject>) -> Result<Self> {
        let keys = object.get_own_property_names(cx)?.to_vec(cx)?;
        Ok(Map { cx, object, keys, key_idx: 0, val_idx: 0 })
    }
}

impl<'de, 'x, 'j, C: Context<'j>> MapAccess<'de> for Map<'x, 'j, C> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>> {
        if self.key_idx >= self.keys.len() {
            return Ok(None);
        }
        let key = self.keys[self.key_idx];
        self.key_idx += 1;
        let mut d = Deserializer::new(self.cx, key);
        seed.deserialize(&mut d).map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, seed: V) -> Result<V::Value> {
        let key = self.keys[self.val_idx];
        self.val_idx += 1;
        let v = self.object.get(self.cx, key)?;
        let mut d = Deserializer::new(self.cx, v);
        seed.deserialize(&mut d)
    }
}

struct Enum<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    variant: String,
    content: Option<Handle<'j, JsValue>>,
}

impl<'de, 'x, 'j, C: Context<'j>> EnumAccess<'de> for Enum<'x, 'j, C> {
    type Error = Error;
    type Variant = Variant<'x, 'j, C>;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self::Variant)> {
        let d: serde::de::value::StringDeserializer<Error> = self.variant.into_deserializer();
        Ok((seed.deserialize(d)?, Variant { cx: self.cx, content: self.content }))
    }
}

struct Variant<'x, 'j, C: Context<'j>> {
    cx: &'x mut C,
    content: Option<Handle<'j, JsValue>>,
}

impl<'de, 'x, 'j, C: Context<'j>> VariantAccess<'de> for Variant<'x, 'j, C> {
    type Error = Error;
    fn unit_variant(self) -> Result<()> {
        match self.content {
            None => Ok(()),
            Some(v) => {
                let mut d = Deserializer::new(self.cx, v);
                serde::Deserialize::deserialize(&mut d)
            }
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value> {
        match self.content {
            Some(v) => {
                let mut d = Deserializer::new(self.cx, v);
                seed.deserialize(&mut d)
            }
            None => custom("a value is needed for this variant"),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, visitor: V) -> Result<V::Value> {
        match self.content {
            Some(v) => match v.downcast::<JsArray>() {
                Ok(array) => {
                    let mut seq = Seq { cx: self.cx, array, next: 0, phantom: PhantomData };
                    visitor.visit_seq(&mut seq)
                }
                Err(_) => custom("an array is needed for this variant"),
            },
            None => custom("a value is needed for this variant"),
        }
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], visitor: V) -> Result<V::Value> {
        match self.content {
            Some(v) => match v.downcast::<JsObject>() {
                Ok(object) => {
                    let mut map = Map::new(self.cx, object)?;
                    visitor.visit_map(&mut map)
                }
                Err(_) => custom("an object is needed for this variant"),
            },
            None => custom("a value is needed for this variant"),
        }
    }
}
