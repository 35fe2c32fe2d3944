//! A minimal binary serde format that trusts length prefixes (as compact binary formats do).
use serde::{de, ser, Deserialize, Serialize};

#[derive(Debug)]
pub struct Err(pub String);
impl std::fmt::Display for Err { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Err {}
impl ser::Error for Err { fn custom<T: std::fmt::Display>(m: T) -> Self { Err(m.to_string()) } }
impl de::Error for Err { fn custom<T: std::fmt::Display>(m: T) -> Self { Err(m.to_string()) } }

pub fn to_bytes<T: Serialize>(t: &T) -> Result<Vec<u8>, Err> { let mut w = W(vec![]); t.serialize(&mut w)?; Ok(w.0) }
/// the whole input has to be consumed
pub fn from_bytes<T: for<'a> Deserialize<'a>>(b: &[u8]) -> Result<T, Err> {
    let mut r = R(b);
    let t = T::deserialize(&mut r)?;
    if r.0.is_empty() { Ok(t) } else { Result::Err(Err(format!("{} bytes left over", r.0.len()))) }
}

pub struct W(pub Vec<u8>);
type Res = Result<(), Err>;
fn no<T>(w: &str) -> Result<T, Err> { Result::Err(Err(format!("{w} not supported by this format"))) }
macro_rules! fixed_ser { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Res { self.0.extend_from_slice(&(v as u64).to_le_bytes()); Ok(()) })* } }
impl<'a> ser::Serializer for &'a mut W {
    type Ok = ();
    type Error = Err;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = ser::Impossible<(), Err>;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Err>;
    fixed_ser!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_char char);
    fn serialize_f32(self, _: f32) -> Res { no("float") }
    fn serialize_f64(self, _: f64) -> Res { no("float") }
    fn serialize_str(self, s: &str) -> Res { self.serialize_bytes(s.as_bytes()) }
    fn serialize_bytes(self, b: &[u8]) -> Res { self.serialize_u64(b.len() as u64)?; self.0.extend_from_slice(b); Ok(()) }
    fn serialize_none(self) -> Res { self.0.push(0); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> Res { self.0.push(1); t.serialize(self) }
    fn serialize_unit(self) -> Res { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> Res { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Res { no("enum") }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> Res { t.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Res { no("enum") }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Err> { match n { Some(n) => { ser::Serializer::serialize_u64(&mut *self, n as u64)?; Ok(self) } None => no("sequence without length") } }
    fn serialize_tuple(self, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Err> { no("enum") }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Err> { self.serialize_seq(n) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, Err> { Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Err> { no("enum") }
    fn is_human_readable(&self) -> bool { false }
}
macro_rules! compound { ($($tr:ident $f:ident),*) => { $(impl<'a> ser::$tr for &'a mut W {
    type Ok = ();
    type Error = Err;
    fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> Res { t.serialize(&mut **self) }
    fn end(self) -> Res { Ok(()) }
})* } }
compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl<'a> ser::SerializeMap for &'a mut W {
    type Ok = ();
    type Error = Err;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> Res { t.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> Res { t.serialize(&mut **self) }
    fn end(self) -> Res { Ok(()) }
}
impl<'a> ser::SerializeStruct for &'a mut W {
    type Ok = ();
    type Error = Err;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, t: &T) -> Res { t.serialize(&mut **self) }
    fn end(self) -> Res { Ok(()) }
}

pub struct R<'a>(pub &'a [u8]);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], Err> {
        if self.0.len() < n { return Result::Err(Err("end of input".into())) }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn num(&mut self) -> Result<u64, Err> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
}
struct Items<'b, 'a>(&'b mut R<'a>, usize);
impl<'de, 'b> de::SeqAccess<'de> for Items<'b, 'de> {
    type Error = Err;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> {
        if self.1 == 0 { return Ok(None) }
        self.1 -= 1;
        s.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
impl<'de, 'b> de::MapAccess<'de> for Items<'b, 'de> {
    type Error = Err;
    fn next_key_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Err> { de::SeqAccess::next_element_seed(self, s) }
    fn next_value_seed<T: de::DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Err> { s.deserialize(&mut *self.0) }
    fn size_hint(&self) -> Option<usize> { Some(self.1) }
}
macro_rules! fixed_de { ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { let n = self.num()?; v.$v(n as $t) })* } }
impl<'de, 'b> de::Deserializer<'de> for &'b mut R<'de> {
    type Error = Err;
    fixed_de!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64);
    fn deserialize_bool<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { match self.num()? { 0 => v.visit_bool(false), 1 => v.visit_bool(true), _ => no("bad bool") } }
    fn deserialize_char<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { match char::from_u32(self.num()? as u32) { Some(c) => v.visit_char(c), None => no("bad char") } }
    fn deserialize_str<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { let n = self.num()? as usize; let b = self.take(n)?; match std::str::from_utf8(b) { Ok(s) => v.visit_str(s), _ => no("bad utf8") } }
    fn deserialize_string<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { self.deserialize_str(v) }
    fn deserialize_option<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { if self.take(1)?[0] == 0 { v.visit_none() } else { v.visit_some(self) } }
    fn deserialize_unit<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { v.visit_unit() }
    fn deserialize_unit_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Err> { v.visit_unit() }
    fn deserialize_newtype_struct<V: de::Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Err> { v.visit_newtype_struct(self) }
    fn deserialize_seq<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { let n = self.num()? as usize; v.visit_seq(Items(self, n)) }
    fn deserialize_map<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Err> { let n = self.num()? as usize; v.visit_map(Items(self, n)) }
    fn deserialize_tuple<V: de::Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, Err> { v.visit_seq(Items(self, n)) }
    fn deserialize_tuple_struct<V: de::Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, Err> { v.visit_seq(Items(self, n)) }
    fn deserialize_struct<V: de::Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Err> { v.visit_seq(Items(self, f.len())) }
    fn deserialize_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("any") }
    fn deserialize_f32<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("float") }
    fn deserialize_f64<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("float") }
    fn deserialize_bytes<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("bytes") }
    fn deserialize_byte_buf<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("bytes") }
    fn deserialize_enum<V: de::Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], _: V) -> Result<V::Value, Err> { no("enum") }
    fn deserialize_identifier<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("identifier") }
    fn deserialize_ignored_any<V: de::Visitor<'de>>(self, _: V) -> Result<V::Value, Err> { no("ignored") }
    fn is_human_readable(&self) -> bool { false }
}
