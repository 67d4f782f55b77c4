//! A value of any format, with the part of the interface of serde-value that is used.
use serde::de::{self, value::MapDeserializer, value::SeqDeserializer, Deserialize, Deserializer, IntoDeserializer, Visitor};
use std::{collections::BTreeMap, fmt, marker::PhantomData};

#[derive(Debug, Clone)]
pub enum Value {
    Bool(bool),
    U64(u64),
    I64(i64),
    F64(f64),
    String(String),
    Unit,
    Seq(Vec<Value>),
    Map(BTreeMap<String, Value>),
}

impl<'de> Deserialize<'de> for Value {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Value;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("any value")
            }
            fn visit_bool<E>(self, v: bool) -> Result<Value, E> {
                Ok(Value::Bool(v))
            }
            fn visit_u64<E>(self, v: u64) -> Result<Value, E> {
                Ok(Value::U64(v))
            }
            fn visit_i64<E>(self, v: i64) -> Result<Value, E> {
                Ok(Value::I64(v))
            }
            fn visit_f64<E>(self, v: f64) -> Result<Value, E> {
                Ok(Value::F64(v))
            }
            fn visit_str<E>(self, v: &str) -> Result<Value, E> {
                Ok(Value::String(v.to_owned()))
            }
            fn visit_unit<E>(self) -> Result<Value, E> {
                Ok(Value::Unit)
            }
            fn visit_none<E>(self) -> Result<Value, E> {
                Ok(Value::Unit)
            }
            fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Value, D::Error> {
                Value::deserialize(d)
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(Value::Seq(v))
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Value, A::Error> {
                let mut v = BTreeMap::new();
                while let Some((k, x)) = a.next_entry()? {
                    v.insert(k, x);
                }
                Ok(Value::Map(v))
            }
        }
        d.deserialize_any(V)
    }
}

pub struct ValueDeserializer<E> {
    value: Value,
    error: PhantomData<E>,
}

impl<E> ValueDeserializer<E> {
    pub fn new(value: Value) -> Self {
        ValueDeserializer { value, error: PhantomData }
    }
}

impl<'de, E: de::Error> IntoDeserializer<'de, E> for Value {
    type Deserializer = ValueDeserializer<E>;
    fn into_deserializer(self) -> ValueDeserializer<E> {
        ValueDeserializer::new(self)
    }
}

impl<'de, E: de::Error> Deserializer<'de> for ValueDeserializer<E> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, E> {
        match self.value {
            Value::Bool(v) => visitor.visit_bool(v),
            Value::U64(v) => visitor.visit_u64(v),
            Value::I64(v) => visitor.visit_i64(v),
            Value::F64(v) => visitor.visit_f64(v),
            Value::String(v) => visitor.visit_string(v),
            Value::Unit => visitor.visit_unit(),
            Value::Seq(v) => visitor.visit_seq(SeqDeserializer::new(v.into_iter())),
            Value::Map(v) => visitor.visit_map(MapDeserializer::new(v.into_iter().map(|(k, v)| (Value::String(k), v)))),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, E> {
        match self.value {
            Value::Unit => visitor.visit_unit(),
            _ => visitor.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _name: &'static str, visitor: V) -> Result<V::Value, E> {
        visitor.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
