//! Configuration trees: what a configuration file deserializes from.
use serde::de::{
    self, value::StrDeserializer, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, Unexpected,
    VariantAccess, Visitor,
};

#[derive(Clone)]
pub enum V {
    F(f64),
    U(u32),
    S(&'static str),
    M(Vec<(&'static str, V)>),
}
pub fn m(v: Vec<(&'static str, V)>) -> V {
    V::M(v)
}
pub fn one(k: &'static str, v: V) -> V {
    V::M(vec![(k, v)])
}

#[derive(Debug)]
pub struct Error;
impl core::fmt::Display for Error {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Error
    }
    fn invalid_type(_: Unexpected, _: &dyn de::Expected) -> Self {
        Error
    }
    fn invalid_value(_: Unexpected, _: &dyn de::Expected) -> Self {
        Error
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Error
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Error
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Error
    }
    fn missing_field(_: &'static str) -> Self {
        Error
    }
    fn duplicate_field(_: &'static str) -> Self {
        Error
    }
}

impl<'de> IntoDeserializer<'de, Error> for V {
    type Deserializer = V;
    fn into_deserializer(self) -> V {
        self
    }
}

struct Map {
    it: std::vec::IntoIter<(&'static str, V)>,
    next: Option<V>,
}
impl<'de> MapAccess<'de> for Map {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Error> {
        match self.it.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.next = Some(v);
                let d: StrDeserializer<Error> = k.into_deserializer();
                seed.deserialize(d).map(Some)
            }
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, Error> {
        seed.deserialize(self.next.take().ok_or(Error)?)
    }
}

struct Enum(&'static str, Option<V>);
impl<'de> EnumAccess<'de> for Enum {
    type Error = Error;
    type Variant = Variant;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, Variant), Error> {
        let d: StrDeserializer<Error> = self.0.into_deserializer();
        Ok((seed.deserialize(d)?, Variant(self.1)))
    }
}
struct Variant(Option<V>);
impl<'de> VariantAccess<'de> for Variant {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Error> {
        seed.deserialize(self.0.ok_or(Error)?)
    }
    fn tuple_variant<T: Visitor<'de>>(self, _: usize, _: T) -> Result<T::Value, Error> {
        Err(Error)
    }
    fn struct_variant<T: Visitor<'de>>(self, _: &'static [&'static str], v: T) -> Result<T::Value, Error> {
        self.0.ok_or(Error)?.deserialize_any(v)
    }
}

impl<'de> Deserializer<'de> for V {
    type Error = Error;
    fn deserialize_any<T: Visitor<'de>>(self, v: T) -> Result<T::Value, Error> {
        match self {
            V::F(x) => v.visit_f64(x),
            V::U(x) => v.visit_u64(u64::from(x)),
            V::S(s) => v.visit_str(s),
            V::M(m) => v.visit_map(Map { it: m.into_iter(), next: None }),
        }
    }
    fn deserialize_enum<T: Visitor<'de>>(
        self, _: &'static str, _: &'static [&'static str], v: T,
    ) -> Result<T::Value, Error> {
        match self {
            V::S(s) => v.visit_enum(Enum(s, None)),
            V::M(mut m) if m.len() == 1 => {
                let (k, x) = m.pop().ok_or(Error)?;
                v.visit_enum(Enum(k, Some(x)))
            }
            _ => Err(Error),
        }
    }
    fn deserialize_option<T: Visitor<'de>>(self, v: T) -> Result<T::Value, Error> {
        v.visit_some(self)
    }
    fn deserialize_newtype_struct<T: Visitor<'de>>(self, _: &'static str, v: T) -> Result<T::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq
        tuple tuple_struct map struct identifier ignored_any
    }
}
