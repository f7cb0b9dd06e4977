//! A minimal serde front end: human readable = strings, otherwise bytes.
use libsecp256k1::PublicKey;
use serde::de::{Deserialize, Deserializer, Visitor};
use serde::ser::{Impossible, Serialize, Serializer};
use std::fmt;

#[derive(Debug)]
pub struct E(String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) }
}
impl std::error::Error for E {}
impl serde::ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> Self { E(m.to_string()) }
}

struct S(bool);
type N = Impossible<String, E>;
macro_rules! no { ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<String, E> { Err(E("kind".into())) })* } }
impl Serializer for S {
    type Ok = String;
    type Error = E;
    type SerializeSeq = N;
    type SerializeTuple = N;
    type SerializeTupleStruct = N;
    type SerializeTupleVariant = N;
    type SerializeMap = N;
    type SerializeStruct = N;
    type SerializeStructVariant = N;
    no!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_unit_struct &'static str);
    fn serialize_str(self, v: &str) -> Result<String, E> { Ok(format!("str {}", v)) }
    fn serialize_bytes(self, v: &[u8]) -> Result<String, E> { Ok(format!("bytes {}", crate::ohex(v))) }
    fn serialize_none(self) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_unit(self) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, E> { Err(E("kind".into())) }
    fn serialize_seq(self, _: Option<usize>) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_tuple(self, _: usize) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_map(self, _: Option<usize>) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<N, E> { Err(E("kind".into())) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<N, E> { Err(E("kind".into())) }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<String, E> { Ok(format!("str {}", v)) }
    fn is_human_readable(&self) -> bool { self.0 }
}

pub fn ser(p: &PublicKey) -> String {
    let a = Serialize::serialize(p, S(true));
    let b = Serialize::serialize(p, S(false));
    format!("{} {}", a.unwrap_or_else(|e| format!("err {}", e.0)), b.unwrap_or_else(|e| format!("err {}", e.0)))
}

pub enum In { Str(String), Bytes(Vec<u8>) }
struct D(In);
impl<'de> Deserializer<'de> for D {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> { Err(E("any".into())) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 { In::Str(s) => v.visit_str(&s), In::Bytes(_) => Err(E("str requested".into())) }
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 { In::Bytes(b) => v.visit_bytes(&b), In::Str(_) => Err(E("bytes requested".into())) }
    }
    fn is_human_readable(&self) -> bool { matches!(self.0, In::Str(_)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char string byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
pub fn de(i: In) -> String {
    match PublicKey::deserialize(D(i)) {
        Ok(p) => format!("Ok {}", crate::opk(&p)),
        Err(_) => "Err".into(),
    }
}
