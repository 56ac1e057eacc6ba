//! A serialiser that is stricter than JSON: it holds every map and sequence to the size it
//! announced, wants keys and values to alternate, and can be told to fail at its n-th atom.

use serde::ser::*;
use serde_json::Value;
use std::cell::Cell;
use std::fmt;

#[derive(Debug, PartialEq)]
pub enum Error {
    Injected,
    Other(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
impl serde::ser::Error for Error {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Error::Other(msg.to_string())
    }
}
fn other<T>(s: impl Into<String>) -> Result<T, Error> {
    Err(Error::Other(s.into()))
}

/// Steps (begin, atom, end of anything) left before the serialiser fails, and taken so far.
pub struct Fuel {
    pub left: Cell<u64>,
    pub used: Cell<u64>,
    /// Whether the format calls itself human-readable.
    pub human: Cell<bool>,
}
impl Fuel {
    pub fn new(n: u64) -> Fuel {
        Fuel { left: Cell::new(n), used: Cell::new(0), human: Cell::new(true) }
    }
    fn step(&self) -> Result<(), Error> {
        self.used.set(self.used.get() + 1);
        let left = self.left.get();
        // Fails once; whoever goes on nevertheless is not stopped again.
        self.left.set(left.wrapping_sub(1));
        if left == 0 { Err(Error::Injected) } else { Ok(()) }
    }
}

#[derive(Clone, Copy)]
pub struct Strict<'a>(pub &'a Fuel);

pub struct Seq<'a> {
    fuel: &'a Fuel,
    items: Vec<Value>,
    said: Option<usize>,
}
pub struct Map<'a> {
    fuel: &'a Fuel,
    items: serde_json::Map<String, Value>,
    key: Option<String>,
    said: Option<usize>,
    count: usize,
}

impl<'a> Strict<'a> {
    fn atom(self, v: impl Into<Value>) -> Result<Value, Error> {
        self.0.step()?;
        Ok(v.into())
    }
    fn seq(self, said: Option<usize>) -> Result<Seq<'a>, Error> {
        self.0.step()?;
        Ok(Seq { fuel: self.0, items: vec![], said })
    }
    fn map(self, said: Option<usize>) -> Result<Map<'a>, Error> {
        self.0.step()?;
        Ok(Map { fuel: self.0, items: Default::default(), key: None, said, count: 0 })
    }
}
impl Seq<'_> {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        let v = v.serialize(Strict(self.fuel))?;
        self.items.push(v);
        Ok(())
    }
    fn finish(self) -> Result<Value, Error> {
        self.fuel.step()?;
        match self.said {
            Some(n) if n != self.items.len() => other(format!("a sequence of {} announced {n} elements", self.items.len())),
            _ => Ok(Value::Array(self.items)),
        }
    }
}
impl Map<'_> {
    fn put<T: Serialize + ?Sized>(&mut self, k: String, v: &T) -> Result<(), Error> {
        let v = v.serialize(Strict(self.fuel))?;
        self.count += 1;
        if self.items.insert(k.clone(), v).is_some() {
            return other(format!("key {k:?} twice"));
        }
        Ok(())
    }
    fn finish(self) -> Result<Value, Error> {
        self.fuel.step()?;
        match self.said {
            _ if self.key.is_some() => other("a key without a value"),
            Some(n) if n != self.count => other(format!("a map of {} announced {n} entries", self.count)),
            _ => Ok(Value::Object(self.items)),
        }
    }
}

impl SerializeSeq for Seq<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeTuple for Seq<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeTupleStruct for Seq<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeTupleVariant for Seq<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeMap for Map<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, k: &T) -> Result<(), Error> {
        if self.key.is_some() {
            return other("two keys in a row");
        }
        match k.serialize(Strict(self.fuel))? {
            Value::String(s) => self.key = Some(s),
            k => return other(format!("key {k}")),
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Error> {
        match self.key.take() {
            Some(k) => self.put(k, v),
            None => other("a value without a key"),
        }
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeStruct for Map<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.put(k.to_string(), v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}
impl SerializeStructVariant for Map<'_> {
    type Ok = Value;
    type Error = Error;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.put(k.to_string(), v)
    }
    fn end(self) -> Result<Value, Error> {
        self.finish()
    }
}

impl<'a> Serializer for Strict<'a> {
    type Ok = Value;
    type Error = Error;
    type SerializeSeq = Seq<'a>;
    type SerializeTuple = Seq<'a>;
    type SerializeTupleStruct = Seq<'a>;
    type SerializeTupleVariant = Seq<'a>;
    type SerializeMap = Map<'a>;
    type SerializeStruct = Map<'a>;
    type SerializeStructVariant = Map<'a>;

    fn is_human_readable(&self) -> bool {
        self.0.human.get()
    }
    fn serialize_bool(self, v: bool) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_i8(self, v: i8) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_i16(self, v: i16) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_i32(self, v: i32) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_i64(self, v: i64) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_u8(self, v: u8) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_u16(self, v: u16) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_u32(self, v: u32) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_u64(self, v: u64) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_f32(self, v: f32) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_f64(self, v: f64) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_char(self, v: char) -> Result<Value, Error> {
        self.atom(v.to_string())
    }
    fn serialize_str(self, v: &str) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Value, Error> {
        self.atom(v.to_vec())
    }
    fn serialize_none(self) -> Result<Value, Error> {
        self.atom(Value::Null)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Value, Error> {
        self.atom(Value::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Value, Error> {
        self.atom(Value::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Value, Error> {
        self.atom(v)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> Result<Value, Error> {
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Seq<'a>, Error> {
        self.seq(n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Seq<'a>, Error> {
        self.seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Seq<'a>, Error> {
        self.seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Seq<'a>, Error> {
        self.seq(Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Map<'a>, Error> {
        self.map(n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Map<'a>, Error> {
        self.map(Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Map<'a>, Error> {
        self.map(Some(n))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<Value, Error> {
        self.atom(v.to_string())
    }
}
