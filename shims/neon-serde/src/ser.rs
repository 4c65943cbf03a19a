use crate::errors::{Error, ErrorKind, Result};
use neon::prelude::*;
use serde::ser::{self, Serialize};
use std::marker::PhantomData;

pub struct Serializer<'a, 'j, C: Context<'j>> {
    pub cx: &'a mut C,
    pub phantom: PhantomData<&'j ()>,
}

macro_rules! numbers {
    ($($f:ident $t:ty),*) => { $(
        fn $f(self, v: $t) -> Result<Self::Ok> {
            Ok(JsNumber::new(self.cx, v as f64).upcast())
        }
    )* };
}

impl<'a, 'j, C: Context<'j>> ser::Serializer for Serializer<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    type SerializeSeq = Seq<'a, 'j, C>;
    type SerializeTuple = Seq<'a, 'j, C>;
    type SerializeTupleStruct = Seq<'a, 'j, C>;
    type SerializeTupleVariant = TupleVariant<'a, 'j, C>;
    type SerializeMap = Map<'a, 'j, C>;
    type SerializeStruct = Struct<'a, 'j, C>;
    type SerializeStructVariant = StructVariant<'a, 'j, C>;

    numbers!(
        serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8,
        serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64
    );

    fn serialize_bool(self, v: bool) -> Result<Self::Ok> {
        Ok(JsBoolean::new(self.cx, v).upcast())
    }
    fn serialize_char(self, v: char) -> Result<Self::Ok> {
        Ok(JsString::new(self.cx, v.to_string()).upcast())
    }
    fn serialize_str(self, v: &str) -> Result<Self::Ok> {
        Ok(JsString::new(self.cx, v).upcast())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok> {
        let b = JsBuffer::new(self.cx, v.len() as u32)?;
        {
            let lock = self.cx.lock();
            b.borrow_mut(&lock).as_mut_slice::<u8>().copy_from_slice(v);
        }
        Ok(b.upcast())
    }
    fn serialize_none(self) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Self::Ok> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Self::Ok> {
        Ok(JsNull::new().upcast())
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Self::Ok> {
        self.serialize_str(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Self::Ok> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Self::Ok> {
        let o = JsObject::new(self.cx);
        let v = crate::to_value(self.cx, v)?;
        o.set(self.cx, variant, v)?;
        Ok(o.upcast())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq> {
        let array = JsArray::new(self.cx, 0);
        Ok(Seq { cx: self.cx, array, next: 0 })
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant> {
        let object = JsObject::new(self.cx);
        let array = JsArray::new(self.cx, 0);
        object.set(self.cx, variant, array)?;
        Ok(TupleVariant { object, seq: Seq { cx: self.cx, array, next: 0 } })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap> {
        let object = JsObject::new(self.cx);
        Ok(Map { cx: self.cx, object, key: None })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct> {
        let object = JsObject::new(self.cx);
        Ok(Struct { cx: self.cx, object })
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant> {
        let outer = JsObject::new(self.cx);
        let object = JsObject::new(self.cx);
        outer.set(self.cx, variant, object)?;
        Ok(StructVariant { outer, inner: Struct { cx: self.cx, object } })
    }
}

pub struct Seq<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    array: Handle<'j, JsArray>,
    next: u32,
}
impl<'a, 'j, C: Context<'j>> Seq<'a, 'j, C> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = crate::to_value(self.cx, v)?;
        self.array.set(self.cx, self.next, v)?;
        self.next += 1;
        Ok(())
    }
}
impl<'a, 'j, C: Context<'j>> ser::SerializeSeq for Seq<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.add(v)
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.array.upcast())
    }
}
impl<'a, 'j, C: Context<'j>> ser::SerializeTuple for Seq<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.add(v)
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.array.upcast())
    }
}
impl<'a, 'j, C: Context<'j>> ser::SerializeTupleStruct for Seq<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.add(v)
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.array.upcast())
    }
}

pub struct TupleVariant<'a, 'j, C: Context<'j>> {
    object: Handle<'j, JsObject>,
    seq: Seq<'a, 'j, C>,
}
impl<'a, 'j, C: Context<'j>> ser::SerializeTupleVariant for TupleVariant<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        self.seq.add(v)
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.object.upcast())
    }
}

pub struct Map<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    object: Handle<'j, JsObject>,
    key: Option<String>,
}
impl<'a, 'j, C: Context<'j>> ser::SerializeMap for Map<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<()> {
        let k = crate::to_value(self.cx, k)?;
        self.key = Some(neon::js::to_text(k.index()));
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<()> {
        let v = crate::to_value(self.cx, v)?;
        let k = match self.key.take() {
            Some(k) => k,
            None => return Err(Error(ErrorKind::Msg("a value without a key".into()))),
        };
        self.object.set(self.cx, &k, v)?;
        Ok(())
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.object.upcast())
    }
}

pub struct Struct<'a, 'j, C: Context<'j>> {
    cx: &'a mut C,
    object: Handle<'j, JsObject>,
}
impl<'a, 'j, C: Context<'j>> ser::SerializeStruct for Struct<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
        let v = crate::to_value(self.cx, v)?;
        self.object.set(self.cx, k, v)?;
        Ok(())
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.object.upcast())
    }
}

pub struct StructVariant<'a, 'j, C: Context<'j>> {
    outer: Handle<'j, JsObject>,
    inner: Struct<'a, 'j, C>,
}
impl<'a, 'j, C: Context<'j>> ser::SerializeStructVariant for StructVariant<'a, 'j, C> {
    type Ok = Handle<'j, JsValue>;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<()> {
        ser::SerializeStruct::serialize_field(&mut self.inner, k, v)
    }
    fn end(self) -> Result<Self::Ok> {
        Ok(self.outer.upcast())
    }
}
