//! A recording serializer and a non-human-readable deserializer wrapper.

use std::fmt::Display;

use serde::{
    Deserializer, Serialize, Serializer,
    de::Visitor,
    ser::{
        self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
        SerializeTupleStruct, SerializeTupleVariant,
    },
};

use crate::core::Ser;

#[derive(Debug)]
pub struct RecErr(pub String);
impl Display for RecErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl ser::Error for RecErr {
    fn custom<T: Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

#[derive(Clone, Copy)]
pub struct Rec {
    pub human: bool,
}

pub struct RecSeq(Rec, Vec<Ser>);
pub struct RecMap(Rec, Vec<(Ser, Ser)>, Option<Ser>);

impl Serializer for Rec {
    type Error = RecErr;
    type Ok = Ser;
    type SerializeMap = RecMap;
    type SerializeSeq = RecSeq;
    type SerializeStruct = RecMap;
    type SerializeStructVariant = RecMap;
    type SerializeTuple = RecSeq;
    type SerializeTupleStruct = RecSeq;
    type SerializeTupleVariant = RecSeq;

    fn serialize_bool(self, v: bool) -> Result<Ser, RecErr> {
        Ok(Ser::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Ser, RecErr> {
        Ok(Ser::I(v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<Ser, RecErr> {
        Ok(Ser::I(v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<Ser, RecErr> {
        Ok(Ser::I(v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<Ser, RecErr> {
        Ok(Ser::I(v as i128))
    }
    fn serialize_i128(self, v: i128) -> Result<Ser, RecErr> {
        Ok(Ser::I(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Ser, RecErr> {
        Ok(Ser::U(v as u128))
    }
    fn serialize_u16(self, v: u16) -> Result<Ser, RecErr> {
        Ok(Ser::U(v as u128))
    }
    fn serialize_u32(self, v: u32) -> Result<Ser, RecErr> {
        Ok(Ser::U(v as u128))
    }
    fn serialize_u64(self, v: u64) -> Result<Ser, RecErr> {
        Ok(Ser::U(v as u128))
    }
    fn serialize_u128(self, v: u128) -> Result<Ser, RecErr> {
        Ok(Ser::U(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Ser, RecErr> {
        Ok(Ser::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Ser, RecErr> {
        Ok(Ser::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<Ser, RecErr> {
        Ok(Ser::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Ser, RecErr> {
        Ok(Ser::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Ser, RecErr> {
        Ok(Ser::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Ser, RecErr> {
        Ok(Ser::Other("none".into()))
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Ser, RecErr> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Ser, RecErr> {
        Ok(Ser::Other("unit".into()))
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Ser, RecErr> {
        Ok(Ser::Other(n.into()))
    }
    fn serialize_unit_variant(self, n: &'static str, _: u32, v: &'static str) -> Result<Ser, RecErr> {
        Ok(Ser::Other(format!("{n}::{v}")))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Ser, RecErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        v: &T,
    ) -> Result<Ser, RecErr> {
        v.serialize(self)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(self, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(self, vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(self, vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<RecSeq, RecErr> {
        Ok(RecSeq(self, vec![]))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<RecMap, RecErr> {
        Ok(RecMap(self, vec![], None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<RecMap, RecErr> {
        Ok(RecMap(self, vec![], None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<RecMap, RecErr> {
        Ok(RecMap(self, vec![], None))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

impl SerializeSeq for RecSeq {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Seq(self.1))
    }
}
impl SerializeTuple for RecSeq {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Seq(self.1))
    }
}
impl SerializeTupleStruct for RecSeq {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Seq(self.1))
    }
}
impl SerializeTupleVariant for RecSeq {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.1.push(v.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Seq(self.1))
    }
}
impl SerializeMap for RecMap {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.2 = Some(v.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        let k = self.2.take().unwrap_or(Ser::Other("nokey".into()));
        self.1.push((k, v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Map(self.1))
    }
}
impl SerializeStruct for RecMap {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
        self.1.push((Ser::Str(k.into()), v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Map(self.1))
    }
}
impl SerializeStructVariant for RecMap {
    type Error = RecErr;
    type Ok = Ser;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
        self.1.push((Ser::Str(k.into()), v.serialize(self.0)?));
        Ok(())
    }
    fn end(self) -> Result<Ser, RecErr> {
        Ok(Ser::Map(self.1))
    }
}

/// What a datum looks like to serde: one visit call, typed like the datum.
pub enum P<'a> {
    Borrowed(&'a str),
    Transient(&'a str),
    Owned(String),
    Bytes(&'a [u8]),
    ByteBuf(Vec<u8>),
    Char(char),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
}

pub type DeErr = serde::de::value::Error;

/// Presents one datum. Like a self-describing (JSON, MessagePack) or compact
/// (human = false) format, it calls the visitor with the type it holds
/// whatever type was hinted.
pub struct Present<'a> {
    pub p:     P<'a>,
    pub human: bool,
}

impl Present<'_> {
    fn unsigned(&self) -> Option<u128> {
        if self.human {
            return None;
        }
        Some(match self.p {
            P::U8(i) => i as u128,
            P::U16(i) => i as u128,
            P::U32(i) => i as u128,
            P::U64(i) => i as u128,
            P::U128(i) => i,
            _ => return None,
        })
    }
}

impl<'de> Deserializer<'de> for Present<'de> {
    type Error = DeErr;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeErr> {
        match self.p {
            P::Borrowed(s) => v.visit_borrowed_str(s),
            P::Transient(s) => v.visit_str(s),
            P::Owned(s) => v.visit_string(s),
            P::Bytes(b) => v.visit_bytes(b),
            P::ByteBuf(b) => v.visit_byte_buf(b),
            P::Char(c) => v.visit_char(c),
            P::Bool(b) => v.visit_bool(b),
            P::I8(i) => v.visit_i8(i),
            P::I16(i) => v.visit_i16(i),
            P::I32(i) => v.visit_i32(i),
            P::I64(i) => v.visit_i64(i),
            P::I128(i) => v.visit_i128(i),
            P::U8(i) => v.visit_u8(i),
            P::U16(i) => v.visit_u16(i),
            P::U32(i) => v.visit_u32(i),
            P::U64(i) => v.visit_u64(i),
            P::U128(i) => v.visit_u128(i),
            P::F32(f) => v.visit_f32(f),
            P::F64(f) => v.visit_f64(f),
        }
    }

    // a compact format stores the width it was asked for
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeErr> {
        match self.unsigned() {
            Some(u) if u64::try_from(u).is_ok() => v.visit_u64(u as u64),
            _ => self.deserialize_any(v),
        }
    }

    fn deserialize_u128<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DeErr> {
        match self.unsigned() {
            Some(u) => v.visit_u128(u),
            _ => self.deserialize_any(v),
        }
    }

    fn is_human_readable(&self) -> bool {
        self.human
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

use crate::core::Tok;

/// `how`: 0 borrowed, 1 owned, 2 transient
pub fn present(tok: &Tok, how: u8, human: bool) -> Option<Present<'_>> {
    let p = match tok {
        Tok::Str(s) => match how {
            0 => P::Borrowed(s),
            1 => P::Owned(s.clone()),
            _ => P::Transient(s),
        },
        Tok::Bytes(b) => {
            if how == 1 {
                P::ByteBuf(b.clone())
            } else {
                P::Bytes(b)
            }
        },
        Tok::Char(c) => P::Char(*c),
        Tok::Bool(b) => P::Bool(*b),
        Tok::I(i, w) => match w {
            8 => P::I8(*i as i8),
            16 => P::I16(*i as i16),
            32 => P::I32(*i as i32),
            64 | 0 => P::I64(*i as i64),
            _ => P::I128(*i),
        },
        Tok::U(i, w) => match w {
            8 => P::U8(*i as u8),
            16 => P::U16(*i as u16),
            32 => P::U32(*i as u32),
            64 | 0 => P::U64(*i as u64),
            _ => P::U128(*i),
        },
        Tok::F32(f) => P::F32(*f),
        Tok::F64(f) => P::F64(*f),
        Tok::Json(_) | Tok::Len(_) => return None,
    };
    Some(Present { p, human })
}
