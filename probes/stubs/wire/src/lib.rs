//! What the derived (or written) serialisation code does, without a file format: a small self-describing value
//! with the conventions of JSON takes its place.
use serde::{de, ser, Deserialize, Serialize};
use std::fmt::Display;

pub enum Value {
    Null,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Seq(Vec<Value>),
    Map(Vec<(String, Value)>),
}

#[derive(Debug)]
pub struct Fail;
impl Display for Fail {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
impl ser::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
}
impl de::Error for Fail {
    fn custom<T: Display>(_: T) -> Self {
        Fail
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Fail
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Fail
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Fail
    }
    fn missing_field(_: &'static str) -> Self {
        Fail
    }
    fn duplicate_field(_: &'static str) -> Self {
        Fail
    }
}

// ---- writing
#[derive(Clone, Copy)]
pub struct W;
pub struct WSeq(Vec<Value>, Option<&'static str>);
pub struct WMap(Vec<(String, Value)>, Option<&'static str>, Option<String>);

fn wrap(name: Option<&'static str>, v: Value) -> Value {
    match name {
        Some(n) => Value::Map(vec![(n.to_string(), v)]),
        None => v,
    }
}

impl ser::Serializer for W {
    type Ok = Value;
    type Error = Fail;
    type SerializeSeq = WSeq;
    type SerializeTuple = WSeq;
    type SerializeTupleStruct = WSeq;
    type SerializeTupleVariant = WSeq;
    type SerializeMap = WMap;
    type SerializeStruct = WMap;
    type SerializeStructVariant = WMap;
    fn serialize_bool(self, v: bool) -> Result<Value, Fail> {
        Ok(Value::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Value, Fail> {
        Ok(Value::I(v as i64))
    }
    fn serialize_i16(self, v: i16) -> Result<Value, Fail> {
        Ok(Value::I(v as i64))
    }
    fn serialize_i32(self, v: i32) -> Result<Value, Fail> {
        Ok(Value::I(v as i64))
    }
    fn serialize_i64(self, v: i64) -> Result<Value, Fail> {
        Ok(Value::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Value, Fail> {
        Ok(Value::U(v as u64))
    }
    fn serialize_u16(self, v: u16) -> Result<Value, Fail> {
        Ok(Value::U(v as u64))
    }
    fn serialize_u32(self, v: u32) -> Result<Value, Fail> {
        Ok(Value::U(v as u64))
    }
    fn serialize_u64(self, v: u64) -> Result<Value, Fail> {
        Ok(Value::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Value, Fail> {
        Ok(Value::F(v as f64))
    }
    fn serialize_f64(self, v: f64) -> Result<Value, Fail> {
        Ok(Value::F(v))
    }
    fn serialize_char(self, v: char) -> Result<Value, Fail> {
        Ok(Value::Str(String::from(v)))
    }
    fn serialize_str(self, v: &str) -> Result<Value, Fail> {
        Ok(Value::Str(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Value, Fail> {
        Err(Fail)
    }
    fn serialize_none(self) -> Result<Value, Fail> {
        Ok(Value::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value, Fail> {
        v.serialize(W)
    }
    fn serialize_unit(self) -> Result<Value, Fail> {
        Ok(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Fail> {
        Ok(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> Result<Value, Fail> {
        Ok(Value::Str(n.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Value, Fail> {
        v.serialize(W)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<Value, Fail> {
        Ok(wrap(Some(n), v.serialize(W)?))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<WSeq, Fail> {
        Ok(WSeq(Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<WSeq, Fail> {
        Ok(WSeq(Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<WSeq, Fail> {
        Ok(WSeq(Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<WSeq, Fail> {
        Ok(WSeq(Vec::new(), Some(n)))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<WMap, Fail> {
        Ok(WMap(Vec::new(), None, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<WMap, Fail> {
        Ok(WMap(Vec::new(), None, None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<WMap, Fail> {
        Ok(WMap(Vec::new(), Some(n), None))
    }
}
impl ser::SerializeSeq for WSeq {
    type Ok = Value;
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.push(v.serialize(W)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Seq(self.0)))
    }
}
impl ser::SerializeTuple for WSeq {
    type Ok = Value;
    type Error = Fail;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.push(v.serialize(W)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Seq(self.0)))
    }
}
impl ser::SerializeTupleStruct for WSeq {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.push(v.serialize(W)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Seq(self.0)))
    }
}
impl ser::SerializeTupleVariant for WSeq {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        self.0.push(v.serialize(W)?);
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Seq(self.0)))
    }
}
impl ser::SerializeMap for WMap {
    type Ok = Value;
    type Error = Fail;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        match v.serialize(W)? {
            Value::Str(s) => {
                self.2 = Some(s);
                Ok(())
            }
            _ => Err(Fail),
        }
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Fail> {
        match self.2.take() {
            Some(k) => {
                self.0.push((k, v.serialize(W)?));
                Ok(())
            }
            None => Err(Fail),
        }
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Map(self.0)))
    }
}
impl ser::SerializeStruct for WMap {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        self.0.push((k.to_string(), v.serialize(W)?));
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Map(self.0)))
    }
}
impl ser::SerializeStructVariant for WMap {
    type Ok = Value;
    type Error = Fail;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        self.0.push((k.to_string(), v.serialize(W)?));
        Ok(())
    }
    fn end(self) -> Result<Value, Fail> {
        Ok(wrap(self.1, Value::Map(self.0)))
    }
}

// ---- reading
pub struct R(pub Value);
pub struct RSeq(std::vec::IntoIter<Value>);
pub struct RMap(std::vec::IntoIter<(String, Value)>, Option<Value>);
pub struct REnum(String, Option<Value>);
pub struct RVariant(Option<Value>);

fn seq<'de, V: de::Visitor<'de>>(v: Vec<Value>, visitor: V) -> Result<V::Value, Fail> {
    let mut s = RSeq(v.into_iter());
    let r = visitor.visit_seq(&mut s)?;
    match s.0.next() {
        None => Ok(r),
        Some(_) => Err(Fail),
    }
}
impl<'de> de::Deserializer<'de> for R {
    type Error = Fail;
    fn deserialize_any<V: de::Visitor<'de>>(self, visitor: V) -> Result<V::Value, Fail> {
        match self.0 {
            Value::Null => visitor.visit_unit(),
            Value::Bool(b) => visitor.visit_bool(b),
            Value::U(u) => visitor.visit_u64(u),
            Value::I(i) => visitor.visit_i64(i),
            Value::F(f) => visitor.visit_f64(f),
            Value::Str(s) => visitor.visit_string(s),
            Value::Seq(v) => seq(v, visitor),
            Value::Map(m) => visitor.visit_map(RMap(m.into_iter(), None)),
        }
    }
    fn deserialize_option<V: de::Visitor<'de>>(self, visitor: V) -> Result<V::Value, Fail> {
        match self.0 {
            Value::Null => visitor.visit_none(),
            v => visitor.visit_some(R(v)),
        }
    }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, visitor: V) -> Result<V::Value, Fail> {
        visitor.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], visitor: V) -> Result<V::Value, Fail> {
        match self.0 {
            Value::Str(s) => visitor.visit_enum(REnum(s, None)),
            Value::Map(m) => {
                let mut m = m.into_iter();
                match (m.next(), m.next()) {
                    (Some((k, v)), None) => visitor.visit_enum(REnum(k, Some(v))),
                    _ => Err(Fail),
                }
            }
            _ => Err(Fail),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct identifier ignored_any
    }
}
impl<'de> de::SeqAccess<'de> for &mut RSeq {
    type Error = Fail;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Fail> {
        match self.0.next() {
            Some(v) => match seed.deserialize(R(v)) {
                Ok(x) => Ok(Some(x)),
                Err(e) => Err(e),
            },
            None => Ok(None),
        }
    }
}
impl<'de> de::MapAccess<'de> for RMap {
    type Error = Fail;
    fn next_key_seed<K: de::DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Fail> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                match seed.deserialize(R(Value::Str(k))) {
                    Ok(x) => Ok(Some(x)),
                    Err(e) => Err(e),
                }
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Fail> {
        match self.1.take() {
            Some(v) => seed.deserialize(R(v)),
            None => Err(Fail),
        }
    }
}
impl<'de> de::EnumAccess<'de> for REnum {
    type Error = Fail;
    type Variant = RVariant;
    fn variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, RVariant), Fail> {
        let v = seed.deserialize(R(Value::Str(self.0)))?;
        Ok((v, RVariant(self.1)))
    }
}
impl<'de> de::VariantAccess<'de> for RVariant {
    type Error = Fail;
    fn unit_variant(self) -> Result<(), Fail> {
        match self.0 {
            None | Some(Value::Null) => Ok(()),
            _ => Err(Fail),
        }
    }
    fn newtype_variant_seed<T: de::DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Fail> {
        match self.0 {
            Some(v) => seed.deserialize(R(v)),
            None => Err(Fail),
        }
    }
    fn tuple_variant<V: de::Visitor<'de>>(self, _: usize, visitor: V) -> Result<V::Value, Fail> {
        match self.0 {
            Some(Value::Seq(v)) => seq(v, visitor),
            _ => Err(Fail),
        }
    }
    fn struct_variant<V: de::Visitor<'de>>(self, _: &'static [&'static str], visitor: V) -> Result<V::Value, Fail> {
        match self.0 {
            Some(Value::Map(m)) => visitor.visit_map(RMap(m.into_iter(), None)),
            _ => Err(Fail),
        }
    }
}

/// A value written and read again.
pub fn round<T: Serialize + for<'de> Deserialize<'de>>(v: &T) -> Option<T> {
    match v.serialize(W) {
        Ok(x) => T::deserialize(R(x)).ok(),
        Err(_) => None,
    }
}
/// A grid as it may stand in a document.
pub fn document(cells: usize, width: u64) -> Value {
    let mut v = Vec::new();
    for _ in 0..cells {
        v.push(Value::Map(vec![("values".to_string(), Value::Seq(Vec::new()))]));
    }
    Value::Map(vec![("values".to_string(), Value::Seq(v)), ("width".to_string(), Value::U(width))])
}
pub fn container(kind: &str, cells: usize, width: u64) -> Value {
    Value::Map(vec![("Container".to_string(), Value::Seq(vec![Value::Str(kind.to_string()), document(cells, width)]))])
}
pub fn read<T: for<'de> Deserialize<'de>>(v: Value) -> Option<T> {
    T::deserialize(R(v)).ok()
}
