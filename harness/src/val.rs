//! A serde `Serializer` into a small value type. The harness looks at the library's output
//! only through `Serialize`, exactly as the wasm interface does, so it does not depend on the
//! names or the layout of the library's internal types.
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(String, Val)>),
}

impl Val {
    pub fn get(&self, key: &str) -> Option<&Val> {
        match self {
            Val::Map(m) => m.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn from_json(j: &serde_json::Value) -> Val {
        use serde_json::Value as J;
        match j {
            J::Null => Val::Null,
            J::Bool(b) => Val::Bool(*b),
            J::Number(n) => match n.as_u64() {
                Some(u) => Val::Int(u as i128),
                None => match n.as_i64() {
                    Some(i) => Val::Int(i as i128),
                    None => Val::Str(format!("<float {}>", n)),
                },
            },
            J::String(s) => Val::Str(s.clone()),
            J::Array(a) => Val::Seq(a.iter().map(Val::from_json).collect()),
            J::Object(o) => Val::Map(
                o.iter()
                    .map(|(k, v)| (k.clone(), Val::from_json(v)))
                    .collect(),
            ),
        }
    }
}

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        E(msg.to_string())
    }
}

pub fn to_val<T: Serialize>(t: &T) -> Result<Val, E> {
    t.serialize(S)
}

pub struct S;
pub struct SeqS(Vec<Val>, Option<&'static str>);
pub struct MapS(Vec<(String, Val)>, Option<String>, Option<&'static str>);

fn wrap(v: Val, variant: Option<&'static str>) -> Val {
    match variant {
        Some(name) => Val::Map(vec![(name.to_string(), v)]),
        None => v,
    }
}

impl ser::Serializer for S {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = SeqS;
    type SerializeTuple = SeqS;
    type SerializeTupleStruct = SeqS;
    type SerializeTupleVariant = SeqS;
    type SerializeMap = MapS;
    type SerializeStruct = MapS;
    type SerializeStructVariant = MapS;
    fn serialize_bool(self, v: bool) -> Result<Val, E> {
        Ok(Val::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_i16(self, v: i16) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_i32(self, v: i32) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_i64(self, v: i64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_u8(self, v: u8) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_u16(self, v: u16) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_u32(self, v: u32) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_u64(self, v: u64) -> Result<Val, E> {
        Ok(Val::Int(v as i128))
    }
    fn serialize_f32(self, _: f32) -> Result<Val, E> {
        Err(E("float".into()))
    }
    fn serialize_f64(self, _: f64) -> Result<Val, E> {
        Err(E("float".into()))
    }
    fn serialize_char(self, v: char) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_str(self, v: &str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<Val, E> {
        Err(E("bytes".into()))
    }
    fn serialize_none(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, E> {
        v.serialize(S)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> {
        Ok(Val::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, E> {
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        v: &T,
    ) -> Result<Val, E> {
        v.serialize(S)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        v: &T,
    ) -> Result<Val, E> {
        Ok(Val::Map(vec![(variant.to_string(), v.serialize(S)?)]))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqS, E> {
        Ok(SeqS(Vec::with_capacity(n.unwrap_or(0)), None))
    }
    fn serialize_tuple(self, n: usize) -> Result<SeqS, E> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqS, E> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        n: usize,
    ) -> Result<SeqS, E> {
        Ok(SeqS(Vec::with_capacity(n), Some(variant)))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapS, E> {
        Ok(MapS(Vec::with_capacity(n.unwrap_or(0)), None, None))
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<MapS, E> {
        self.serialize_map(Some(n))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        variant: &'static str,
        n: usize,
    ) -> Result<MapS, E> {
        Ok(MapS(Vec::with_capacity(n), None, Some(variant)))
    }
}

impl ser::SerializeSeq for SeqS {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.0.push(v.serialize(S)?);
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(wrap(Val::Seq(self.0), self.1))
    }
}
impl ser::SerializeTuple for SeqS {
    type Ok = Val;
    type Error = E;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, E> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleStruct for SeqS {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, E> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeTupleVariant for SeqS {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, E> {
        ser::SerializeSeq::end(self)
    }
}
impl ser::SerializeMap for MapS {
    type Ok = Val;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), E> {
        match k.serialize(S)? {
            Val::Str(s) => self.1 = Some(s),
            Val::Int(i) => self.1 = Some(i.to_string()),
            _ => return Err(E("bad key".into())),
        }
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        let k = self.1.take().ok_or(E("no key".into()))?;
        self.0.push((k, v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(wrap(Val::Map(self.0), self.2))
    }
}
impl ser::SerializeStruct for MapS {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(wrap(Val::Map(self.0), self.2))
    }
}
impl ser::SerializeStructVariant for MapS {
    type Ok = Val;
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), E> {
        self.0.push((k.to_string(), v.serialize(S)?));
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        Ok(wrap(Val::Map(self.0), self.2))
    }
}
