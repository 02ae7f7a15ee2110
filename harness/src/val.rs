//! A self-describing in-memory serde format: reads a sketch's complete state and builds sketches from
//! arbitrary states. Fields are found by name; a field the crate adds is carried over from a fresh sketch.
use crate::sym;
use serde::de::value::StrDeserializer;
use serde::de::{DeserializeSeed, MapAccess, SeqAccess, Visitor};
use serde::{ser, Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

#[derive(Clone)]
pub enum Val {
    U(u64),
    Bool(bool),
    Unit,
    None,
    Some(Box<Val>),
    Nums(Vec<u64>),
    Seq(Vec<Val>),
    Struct(Vec<(&'static str, Val)>),
}

#[derive(Debug)]
pub struct E;
impl fmt::Display for E {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self { E }
}
impl serde::de::Error for E {
    fn custom<T: fmt::Display>(_: T) -> Self { E }
    fn invalid_type(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { E }
    fn invalid_value(_: serde::de::Unexpected, _: &dyn serde::de::Expected) -> Self { E }
    fn invalid_length(_: usize, _: &dyn serde::de::Expected) -> Self { E }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { E }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { E }
    fn missing_field(_: &'static str) -> Self { E }
    fn duplicate_field(_: &'static str) -> Self { E }
}

pub fn ser<T: Serialize + ?Sized>(t: &T) -> Val {
    match t.serialize(Ser) { Ok(v) => v, Err(_) => sym::bail(901) }
}
pub fn try_de<'a, T: Deserialize<'a>>(v: &'a Val, how: How) -> Option<T> {
    match T::deserialize(De { v, how }) { Ok(t) => Some(t), Err(_) => None }
}
pub fn de<'a, T: Deserialize<'a>>(v: &'a Val) -> T {
    match try_de(v, How::Map) { Some(t) => t, None => sym::bail(902) }
}

impl Val {
    pub fn get(&self, k: &str) -> &Val {
        if let Val::Struct(f) = self { for (n, v) in f { if *n == k { return v; } } }
        if let Val::Some(b) = self { return b.get(k); }
        sym::bail(903)
    }
    pub fn get_mut(&mut self, k: &str) -> &mut Val {
        match self {
            Val::Struct(f) => { for (n, v) in f { if *n == k { return v; } } sym::bail(903) }
            Val::Some(b) => b.get_mut(k),
            _ => sym::bail(903),
        }
    }
    pub fn has(&self, k: &str) -> bool {
        match self { Val::Struct(f) => f.iter().any(|x| x.0 == k), Val::Some(b) => b.has(k), _ => false }
    }
    pub fn nums(&self) -> &Vec<u64> {
        static EMPTY: Vec<u64> = Vec::new();
        match self { Val::Nums(v) => v, Val::Seq(v) if v.is_empty() => &EMPTY, _ => sym::bail(904) }
    }
    pub fn num(&self) -> u64 { match self { Val::U(v) => *v, _ => sym::bail(905) } }
    pub fn is_none(&self) -> bool { matches!(self, Val::None) }
}
/// structural equality without early exits
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::U(x), Val::U(y)) => x == y,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Unit, Val::Unit) | (Val::None, Val::None) => true,
        (Val::Some(x), Val::Some(y)) => same(x, y),
        (Val::Nums(x), Val::Nums(y)) => {
            if x.len() != y.len() { return false; }
            let mut ok = true;
            let mut i = 0;
            while i < x.len() { ok &= x[i] == y[i]; i += 1; }
            ok
        }
        (Val::Nums(x), Val::Seq(y)) | (Val::Seq(y), Val::Nums(x)) => x.is_empty() && y.is_empty(),
        (Val::Seq(x), Val::Seq(y)) => x.len() == y.len() && { let mut ok = true; for i in 0..x.len() { ok &= same(&x[i], &y[i]); } ok },
        (Val::Struct(x), Val::Struct(y)) => x.len() == y.len() && { let mut ok = true; for i in 0..x.len() { ok &= same(&x[i].1, &y[i].1); } ok },
        _ => false,
    }
}

pub struct Ser;
pub struct SeqSer { nums: Vec<u64>, vals: Vec<Val> }
pub struct StructSer { f: Vec<(&'static str, Val)> }
macro_rules! num { ($($n:ident $t:ty),*) => { $(fn $n(self, v: $t) -> Result<Val, E> { Ok(Val::U(v as u64)) })* } }
impl Serializer for Ser {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = SeqSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = ser::Impossible<Val, E>;
    type SerializeMap = ser::Impossible<Val, E>;
    type SerializeStruct = StructSer;
    type SerializeStructVariant = ser::Impossible<Val, E>;
    num! { serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64 }
    fn serialize_bool(self, v: bool) -> Result<Val, E> { Ok(Val::Bool(v)) }
    fn serialize_f32(self, _: f32) -> Result<Val, E> { Err(E) }
    fn serialize_f64(self, v: f64) -> Result<Val, E> { Ok(Val::U(v.to_bits())) }
    fn serialize_char(self, _: char) -> Result<Val, E> { Err(E) }
    fn serialize_str(self, _: &str) -> Result<Val, E> { Err(E) }
    fn serialize_bytes(self, v: &[u8]) -> Result<Val, E> { Ok(Val::Nums(v.iter().map(|b| *b as u64).collect())) }
    fn serialize_none(self) -> Result<Val, E> { Ok(Val::None) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, E> { Ok(Val::Some(Box::new(v.serialize(Ser)?))) }
    fn serialize_unit(self) -> Result<Val, E> { Ok(Val::Unit) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> { Ok(Val::Unit) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<Val, E> { Ok(Val::U(i as u64)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Val, E> { v.serialize(Ser) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Val, E> { Err(E) }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer, E> { Ok(SeqSer { nums: Vec::with_capacity(n.unwrap_or(0)), vals: Vec::new() }) }
    fn serialize_tuple(self, n: usize) -> Result<SeqSer, E> { Ok(SeqSer { nums: Vec::with_capacity(n), vals: Vec::new() }) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqSer, E> { self.serialize_tuple(n) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E) }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<StructSer, E> { Ok(StructSer { f: Vec::with_capacity(n) }) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E) }
    fn is_human_readable(&self) -> bool { false }
}
impl SeqSer {
    fn put<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        match v.serialize(Ser)? {
            Val::U(k) if self.vals.is_empty() => self.nums.push(k),
            x => { for k in self.nums.drain(..) { self.vals.push(Val::U(k)); } self.vals.push(x); }
        }
        Ok(())
    }
    fn done(self) -> Result<Val, E> { Ok(if self.vals.is_empty() { Val::Nums(self.nums) } else { Val::Seq(self.vals) }) }
}
impl ser::SerializeSeq for SeqSer {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put(v) }
    fn end(self) -> Result<Val, E> { self.done() }
}
impl ser::SerializeTuple for SeqSer {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put(v) }
    fn end(self) -> Result<Val, E> { self.done() }
}
impl ser::SerializeTupleStruct for SeqSer {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { self.put(v) }
    fn end(self) -> Result<Val, E> { self.done() }
}
impl ser::SerializeStruct for StructSer {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), E> { let x = v.serialize(Ser)?; self.f.push((k, x)); Ok(()) }
    fn end(self) -> Result<Val, E> { Ok(Val::Struct(self.f)) }
}

/// how structs are presented on reading: as maps with field names, as maps in reverse order, or as plain sequences
#[derive(Clone, Copy, PartialEq)]
pub enum How { Map, Reversed, Seq }

#[derive(Clone, Copy)]
pub struct De<'a> { v: &'a Val, how: How }
struct NumSeq<'a> { v: &'a [u64], i: usize }
struct ValSeq<'a> { v: &'a [Val], i: usize, how: How }
struct FieldSeq<'a> { v: &'a [(&'static str, Val)], i: usize, how: How }
struct NumDe(u64);
impl<'de> Deserializer<'de> for NumDe {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u64(self.0) }
    fn is_human_readable(&self) -> bool { false }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'a, 'de> SeqAccess<'de> for NumSeq<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.i >= self.v.len() { return Ok(None); }
        let k = self.v[self.i];
        self.i += 1;
        s.deserialize(NumDe(k)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.v.len() - self.i) }
}
impl<'de> SeqAccess<'de> for ValSeq<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.i >= self.v.len() { return Ok(None); }
        self.i += 1;
        s.deserialize(De { v: &self.v[self.i - 1], how: self.how }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.v.len() - self.i) }
}
impl<'de> SeqAccess<'de> for FieldSeq<'de> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.i >= self.v.len() { return Ok(None); }
        self.i += 1;
        s.deserialize(De { v: &self.v[self.i - 1].1, how: self.how }).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.v.len() - self.i) }
}
impl<'de> FieldSeq<'de> {
    fn at(&self) -> usize { if self.how == How::Reversed { self.v.len() - 1 - self.i } else { self.i } }
}
impl<'de> MapAccess<'de> for FieldSeq<'de> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        if self.i >= self.v.len() { return Ok(None); }
        s.deserialize(StrDeserializer::new(self.v[self.at()].0)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        let a = self.at();
        self.i += 1;
        s.deserialize(De { v: &self.v[a].1, how: self.how })
    }
    fn size_hint(&self) -> Option<usize> { Some(self.v.len() - self.i) }
}
impl<'de> Deserializer<'de> for De<'de> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.v {
            Val::U(k) => v.visit_u64(*k),
            Val::Bool(b) => v.visit_bool(*b),
            Val::Unit => v.visit_unit(),
            Val::None => v.visit_none(),
            Val::Some(b) => v.visit_some(De { v: b, how: self.how }),
            Val::Nums(x) => v.visit_seq(NumSeq { v: x, i: 0 }),
            Val::Seq(x) => v.visit_seq(ValSeq { v: x, i: 0, how: self.how }),
            Val::Struct(f) => if self.how == How::Seq { v.visit_seq(FieldSeq { v: f, i: 0, how: self.how }) } else { v.visit_map(FieldSeq { v: f, i: 0, how: self.how }) },
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> { v.visit_newtype_struct(self) }
    fn is_human_readable(&self) -> bool { false }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
