//! A minimal non-self-describing serde format (fields in order, no names, fixed-width numbers),
//! in the manner of bincode: what is read back must follow from the type alone.
use serde::de::{self, DeserializeOwned, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt::Display;

#[derive(Debug)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
type Res<T> = Result<T, Error>;

pub fn to_bytes<T: Serialize>(t: &T) -> Res<Vec<u8>> {
    let mut out = vec![];
    t.serialize(Ser(&mut out))?;
    Ok(out)
}
pub fn from_bytes<T: DeserializeOwned>(b: &[u8]) -> Res<T> {
    let mut d = De(b);
    let t = T::deserialize(&mut d)?;
    if d.0.is_empty() {
        Ok(t)
    } else {
        Err(Error(format!("{} bytes left over", d.0.len())))
    }
}

pub struct Ser<'a>(&'a mut Vec<u8>);
macro_rules! put {
    ($($f:ident $t:ty),*) => {$(fn $f(self, v: $t) -> Res<()> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })*};
}
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    put!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
         serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn serialize_bool(self, v: bool) -> Res<()> {
        self.serialize_u8(v as u8)
    }
    fn serialize_char(self, v: char) -> Res<()> {
        self.serialize_u32(v as u32)
    }
    fn serialize_str(self, v: &str) -> Res<()> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Res<()> {
        self.0.extend_from_slice(&(v.len() as u64).to_le_bytes());
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Res<()> {
        self.serialize_u8(0)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Res<()> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Res<()> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Res<()> {
        self.serialize_u32(i)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Res<()> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Res<()> {
        self.0.extend_from_slice(&i.to_le_bytes());
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> Res<Self> {
        let n = len.ok_or(Error("sequence of unknown length".into()))?;
        self.0.extend_from_slice(&(n as u64).to_le_bytes());
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.0.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
    fn serialize_map(self, len: Option<usize>) -> Res<Self> {
        self.serialize_seq(len)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Res<Self> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Res<Self> {
        self.0.extend_from_slice(&i.to_le_bytes());
        Ok(self)
    }
}
macro_rules! parts {
    ($($tr:ident $f:ident),*) => {$(
        impl<'a> ser::$tr for Ser<'a> {
            type Ok = ();
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> { v.serialize(Ser(self.0)) }
            fn end(self) -> Res<()> { Ok(()) }
        }
    )*};
}
parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named {
    ($($tr:ident),*) => {$(
        impl<'a> ser::$tr for Ser<'a> {
            type Ok = ();
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Res<()> { v.serialize(Ser(self.0)) }
            fn end(self) -> Res<()> { Ok(()) }
        }
    )*};
}
named!(SerializeStruct, SerializeStructVariant);
impl<'a> ser::SerializeMap for Ser<'a> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(Ser(self.0))
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Res<()> {
        v.serialize(Ser(self.0))
    }
    fn end(self) -> Res<()> {
        Ok(())
    }
}

pub struct De<'de>(&'de [u8]);
impl<'de> De<'de> {
    fn take(&mut self, n: usize) -> Res<&'de [u8]> {
        if self.0.len() < n {
            return Err(Error("unexpected end of data".into()));
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Ok(a)
    }
    fn len(&mut self) -> Res<usize> {
        let n = u64::from_le_bytes(self.take(8)?.try_into().unwrap());
        if n > 1 << 32 {
            return Err(Error("absurd length".into()));
        }
        Ok(n as usize)
    }
    fn tag(&mut self) -> Res<u8> {
        Ok(self.take(1)?[0])
    }
}
macro_rules! get {
    ($($f:ident $v:ident $t:ty),*) => {$(fn $f<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let b = self.take(std::mem::size_of::<$t>())?;
        v.$v(<$t>::from_le_bytes(b.try_into().unwrap()))
    })*};
}
impl<'de> de::Deserializer<'de> for &mut De<'de> {
    type Error = Error;
    get!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
         deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64,
         deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn is_human_readable(&self) -> bool {
        false
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Res<V::Value> {
        Err(Error("this format does not describe itself".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Res<V::Value> {
        Err(Error("this format does not describe itself".into()))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Res<V::Value> {
        Err(Error("this format has no field names".into()))
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.tag()? {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            x => Err(Error(format!("bad bool {}", x))),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        v.visit_char(char::from_u32(n).ok_or(Error("bad char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_str(std::str::from_utf8(self.take(n)?).map_err(|e| Error(e.to_string()))?)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.len()?;
        v.visit_borrowed_bytes(self.take(n)?)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        match self.tag()? {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            x => Err(Error(format!("bad option {}", x))),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Res<V::Value> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.len()?;
        v.visit_seq(Parts(self, n))
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Parts(self, n))
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Parts(self, n))
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Res<V::Value> {
        let n = self.len()?;
        v.visit_map(Parts(self, n))
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_seq(Parts(self, f.len()))
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_enum(self)
    }
}
struct Parts<'a, 'de>(&'a mut De<'de>, usize);
impl<'a, 'de> de::SeqAccess<'de> for Parts<'a, 'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Res<Option<T::Value>> {
        if self.1 == 0 {
            return Ok(None);
        }
        self.1 -= 1;
        seed.deserialize(&mut *self.0).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.1)
    }
}
impl<'a, 'de> de::MapAccess<'de> for Parts<'a, 'de> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Res<Option<T::Value>> {
        de::SeqAccess::next_element_seed(self, seed)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Res<T::Value> {
        seed.deserialize(&mut *self.0)
    }
}
impl<'de> de::EnumAccess<'de> for &mut De<'de> {
    type Error = Error;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Res<(T::Value, Self)> {
        let i = u32::from_le_bytes(self.take(4)?.try_into().unwrap());
        Ok((seed.deserialize(IntoDeserializer::<Error>::into_deserializer(i))?, self))
    }
}
impl<'de> de::VariantAccess<'de> for &mut De<'de> {
    type Error = Error;
    fn unit_variant(self) -> Res<()> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Res<T::Value> {
        seed.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Res<V::Value> {
        v.visit_seq(Parts(self, n))
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Res<V::Value> {
        v.visit_seq(Parts(self, f.len()))
    }
}
