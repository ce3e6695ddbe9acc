//! Offline stand-in for `serde_yaml_ng`, used only by debugging code.  Documents are lines of JSON, in which maps are
//! lists of pairs, as keys may be anything.
use serde::ser::{self, Serialize};
use serde_json::{json, Value};
pub use serde_json::{from_str, to_string, Error};
use std::io::Write;

pub mod with { pub mod singleton_map {
    pub struct SingletonMap;
    impl SingletonMap {
        #[allow(clippy::new_ret_no_self)]
        pub fn new<S>(s: S) -> S { s }
    }
} }

pub struct Serializer<W: Write>(W);
impl<W: Write> Serializer<W> {
    pub fn new(w: W) -> Self { Serializer(w) }
    fn put(&mut self, v: Value) -> Result<(), Error> { writeln!(self.0, "{v}").map_err(Error::io) }
}

type R = Result<Value, Error>;

/// Collects the parts of something
pub struct Parts { seq: Vec<Value>, map: serde_json::Map<String, Value>, name: Option<&'static str>, key: Option<Value> }
impl Parts {
    fn new(name: Option<&'static str>) -> Self { Parts { seq: vec![], map: Default::default(), name, key: None } }
    fn wrap(self, v: Value) -> R { Ok(match self.name { Some(n) => json!({ n: v }), None => v }) }
    fn end_seq(mut self) -> R { let v = Value::Array(std::mem::take(&mut self.seq)); self.wrap(v) }
    fn end_map(mut self) -> R { let v = Value::Object(std::mem::take(&mut self.map)); self.wrap(v) }
    fn push<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.seq.push(v.serialize(V)?); Ok(()) }
    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.map.insert(k.into(), v.serialize(V)?); Ok(()) }
}

struct V;
macro_rules! simple { ($($f: ident $t: ty),*) => { $(fn $f(self, v: $t) -> R { Ok(json!(v)) })* } }
impl ser::Serializer for V {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    simple! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8] }
    fn serialize_none(self) -> R { Ok(Value::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { v.serialize(V) }
    fn serialize_unit(self) -> R { Ok(Value::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(Value::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R { Ok(json!(v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(V) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> R { Ok(json!({ n: v.serialize(V)? })) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, Error> { Ok(Parts::new(None)) }
    fn serialize_tuple(self, _: usize) -> Result<Parts, Error> { Ok(Parts::new(None)) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, Error> { Ok(Parts::new(None)) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Parts, Error> { Ok(Parts::new(Some(n))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Parts, Error> { Ok(Parts::new(None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts, Error> { Ok(Parts::new(None)) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Parts, Error> { Ok(Parts::new(Some(n))) }
}

// The parts become a Value, or a line of output
macro_rules! seqs { ($($t: ident $f: ident),*) => { $(impl ser::$t for Parts {
    type Ok = Value;
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { self.push(v) }
    fn end(self) -> R { self.end_seq() }
})* } }
seqs! { SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field }
macro_rules! maps { ($($t: ident),*) => { $(impl ser::$t for Parts {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> { self.field(k, v) }
    fn end(self) -> R { self.end_map() }
})* } }
maps! { SerializeStruct, SerializeStructVariant }
impl ser::SerializeMap for Parts {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> { self.key = Some(k.serialize(V)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let k = self.key.take();
        self.seq.push(json!([k, v.serialize(V)?]));
        Ok(())
    }
    fn end(self) -> R { self.end_seq() }
}

/// Parts of a document
pub struct Doc<'a, W: Write>(&'a mut Serializer<W>, Parts);
macro_rules! docs { ($($t: ident $f: ident($($k: ident)?)),*) => { $(impl<'a, W: Write> ser::$t for Doc<'a, W> {
    type Ok = ();
    type Error = Error;
    fn $f<T: ?Sized + Serialize>(&mut self, $($k: &'static str,)? v: &T) -> Result<(), Error> { ser::$t::$f(&mut self.1, $($k,)? v) }
    fn end(self) -> Result<(), Error> { let v = ser::$t::end(self.1)?; self.0.put(v) }
})* } }
docs! { SerializeSeq serialize_element(), SerializeTuple serialize_element(), SerializeTupleStruct serialize_field(), SerializeTupleVariant serialize_field(),
    SerializeStruct serialize_field(k), SerializeStructVariant serialize_field(k) }
impl<'a, W: Write> ser::SerializeMap for Doc<'a, W> {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> { ser::SerializeMap::serialize_key(&mut self.1, k) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { ser::SerializeMap::serialize_value(&mut self.1, v) }
    fn end(self) -> Result<(), Error> { let v = ser::SerializeMap::end(self.1)?; self.0.put(v) }
}

macro_rules! tops { ($($f: ident $t: ty),*) => { $(fn $f(self, v: $t) -> Result<(), Error> { let v = V.$f(v)?; self.put(v) })* } }
impl<'a, W: Write> ser::Serializer for &'a mut Serializer<W> {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Doc<'a, W>;
    type SerializeTuple = Doc<'a, W>;
    type SerializeTupleStruct = Doc<'a, W>;
    type SerializeTupleVariant = Doc<'a, W>;
    type SerializeMap = Doc<'a, W>;
    type SerializeStruct = Doc<'a, W>;
    type SerializeStructVariant = Doc<'a, W>;
    tops! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str, serialize_bytes &[u8] }
    fn serialize_none(self) -> Result<(), Error> { self.put(Value::Null) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> { v.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { self.put(Value::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Error> { self.put(Value::Null) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<(), Error> { self.put(json!(v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, v: &T) -> Result<(), Error> {
        let v = v.serialize(V)?;
        self.put(json!({ n: v }))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(None))) }
    fn serialize_tuple(self, _: usize) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(None))) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(None))) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(Some(n)))) }
    fn serialize_map(self, _: Option<usize>) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(None))) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(None))) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Doc<'a, W>, Error> { Ok(Doc(self, Parts::new(Some(n)))) }
}
