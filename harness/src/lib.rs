//! Instantiation harness: monomorphises the generic entry points.
use libsecp256k1::curve::Scalar;
use libsecp256k1::*;
use serde::de::{self, Visitor};
use serde::ser;
use serde::{Deserialize, Serialize};

pub fn h_ecdh_new(p: &PublicKey, s: &SecretKey) -> Result<SharedSecret<sha2::Sha256>, Error> {
    SharedSecret::<sha2::Sha256>::new(p, s)
}
pub fn h_ecdh_new_with_context(p: &PublicKey, s: &SecretKey, c: &curve::ECMultContext) -> Result<SharedSecret<sha2::Sha256>, Error> {
    SharedSecret::<sha2::Sha256>::new_with_context(p, s, c)
}

/// a generator whose output is supplied by the checker
pub struct HRng(pub u8);
impl rand::RngCore for HRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            *x = self.0;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
pub fn h_random(r: &mut HRng) -> SecretKey {
    SecretKey::random(r)
}

pub fn h_hex_scalar(s: &Scalar, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    core::fmt::LowerHex::fmt(s, f)
}
pub fn h_hex_key(s: &SecretKey, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
    core::fmt::LowerHex::fmt(s, f)
}

/// what a serialiser was given
pub enum HOut {
    Bytes(usize),
    Str(usize),
}
#[derive(Debug)]
pub struct HErr;
impl core::fmt::Display for HErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for HErr {}
impl ser::Error for HErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        HErr
    }
}
impl de::Error for HErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        HErr
    }
}
pub struct HSer(pub bool);
#[inline(never)]
pub fn h_emit_bytes(v: &[u8]) -> Result<HOut, HErr> {
    Ok(HOut::Bytes(v.len()))
}
#[inline(never)]
pub fn h_emit_str(v: &str) -> Result<HOut, HErr> {
    Ok(HOut::Str(v.len()))
}
type Imp = ser::Impossible<HOut, HErr>;
impl ser::Serializer for HSer {
    type Ok = HOut;
    type Error = HErr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_str(self, v: &str) -> Result<HOut, HErr> {
        h_emit_str(v)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<HOut, HErr> {
        h_emit_bytes(v)
    }
    fn collect_str<T: ?Sized + core::fmt::Display>(self, _: &T) -> Result<HOut, HErr> {
        Err(HErr)
    }
    fn serialize_bool(self, _: bool) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_i8(self, _: i8) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_i16(self, _: i16) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_i32(self, _: i32) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_i64(self, _: i64) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_u8(self, _: u8) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_u16(self, _: u16) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_u32(self, _: u32) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_u64(self, _: u64) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_f32(self, _: f32) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_f64(self, _: f64) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_char(self, _: char) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_none(self) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_unit(self) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<HOut, HErr> { Err(HErr) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, HErr> { Err(HErr) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, HErr> { Err(HErr) }
}
pub fn h_ser(k: &PublicKey, human: bool) -> Result<HOut, HErr> {
    <PublicKey as Serialize>::serialize(k, HSer(human))
}

pub struct HDe<'a>(pub bool, pub &'a [u8], pub &'a str);
impl<'de, 'a> de::Deserializer<'de> for HDe<'a> {
    type Error = HErr;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        if self.0 {
            v.visit_str(self.2)
        } else {
            v.visit_bytes(self.1)
        }
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        v.visit_str(self.2)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        v.visit_str(self.2)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        v.visit_bytes(self.1)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, HErr> {
        v.visit_bytes(self.1)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char
        option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
pub fn h_de(human: bool, b: &[u8], s: &str) -> Result<PublicKey, HErr> {
    PublicKey::deserialize(HDe(human, b, s))
}
