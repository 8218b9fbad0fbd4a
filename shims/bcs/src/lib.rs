//! Binary Canonical Serialization (serializer only), written after the BCS specification.
use serde::ser::*;
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
pub fn to_bytes<T: Serialize + ?Sized>(t: &T) -> Result<Vec<u8>, Error> {
    let mut s = S(vec![]);
    t.serialize(&mut s)?;
    Ok(s.0)
}
struct S(Vec<u8>);
impl S {
    fn uleb(&mut self, mut v: u32) {
        while v >= 0x80 {
            self.0.push((v as u8 & 0x7f) | 0x80);
            v >>= 7;
        }
        self.0.push(v as u8);
    }
    fn len(&mut self, n: usize) -> Result<(), Error> {
        if n > (1 << 31) - 1 {
            return Err(Error("too long".into()));
        }
        self.uleb(n as u32);
        Ok(())
    }
}
struct Seq<'a> {
    s: &'a mut S,
    /// sequences of unknown length are buffered
    items: Option<(Vec<Vec<u8>>, bool)>,
}
macro_rules! ints { ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { self.0.extend_from_slice(&v.to_le_bytes()); Ok(()) })* } }
impl<'a> Serializer for &'a mut S {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Seq<'a>;
    type SerializeStruct = Seq<'a>;
    type SerializeStructVariant = Seq<'a>;
    ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_u128 u128);
    fn serialize_bool(self, v: bool) -> Result<(), Error> {
        self.0.push(v as u8);
        Ok(())
    }
    fn serialize_f32(self, _: f32) -> Result<(), Error> {
        Err(Error("f32".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<(), Error> {
        Err(Error("f64".into()))
    }
    fn serialize_char(self, _: char) -> Result<(), Error> {
        Err(Error("char".into()))
    }
    fn serialize_str(self, v: &str) -> Result<(), Error> {
        self.serialize_bytes(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Error> {
        self.len(v.len())?;
        self.0.extend_from_slice(v);
        Ok(())
    }
    fn serialize_none(self) -> Result<(), Error> {
        self.0.push(0);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> {
        self.0.push(1);
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), Error> {
        self.uleb(i);
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), Error> {
        self.uleb(i);
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq<'a>, Error> {
        match n {
            Some(n) => {
                self.len(n)?;
                Ok(Seq { s: self, items: None })
            }
            None => Ok(Seq { s: self, items: Some((vec![], false)) }),
        }
    }
    fn serialize_tuple(self, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq { s: self, items: None })
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq { s: self, items: None })
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        self.uleb(i);
        Ok(Seq { s: self, items: None })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Seq<'a>, Error> {
        Ok(Seq { s: self, items: Some((vec![], true)) })
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        Ok(Seq { s: self, items: None })
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Seq<'a>, Error> {
        self.uleb(i);
        Ok(Seq { s: self, items: None })
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
impl Seq<'_> {
    fn put<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        match &mut self.items {
            None => v.serialize(&mut *self.s),
            Some((i, _)) => {
                i.push(to_bytes(v)?);
                Ok(())
            }
        }
    }
    fn fin(self) -> Result<(), Error> {
        if let Some((mut i, map)) = self.items {
            if map {
                let mut e: Vec<(Vec<u8>, Vec<u8>)> = i.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
                e.sort();
                self.s.len(e.len())?;
                for (k, v) in e {
                    self.s.0.extend(k);
                    self.s.0.extend(v);
                }
            } else {
                self.s.len(i.len())?;
                for x in i.drain(..) {
                    self.s.0.extend(x);
                }
            }
        }
        Ok(())
    }
}
macro_rules! seqs { ($($t:ident $f:ident),*) => { $(impl $t for Seq<'_> { type Ok = (); type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.put(v) }
    fn end(self) -> Result<(), Error> { self.fin() } })* } }
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl SerializeMap for Seq<'_> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.put(v)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.put(v)
    }
    fn end(self) -> Result<(), Error> {
        self.fin()
    }
}
macro_rules! structs { ($($t:ident),*) => { $(impl $t for Seq<'_> { type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> { self.put(v) }
    fn end(self) -> Result<(), Error> { self.fin() } })* } }
structs!(SerializeStruct, SerializeStructVariant);
