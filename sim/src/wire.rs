//! Two storage formats of the simulated applications, both with a fault seam.
//!
//! `Pos`: positional bytes without names (as bincode). `Val`: a tree, either with field names
//! (as MessagePack maps) or positional (as MessagePack arrays). Every call the library makes on
//! them is counted, and the n-th can fail.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::cell::Cell;
use std::io::{Read, Write};

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        E(m.to_string())
    }
}
impl From<std::io::Error> for E {
    fn from(e: std::io::Error) -> E {
        E(e.to_string())
    }
}

// ------------------------------------------------------------------ positional bytes

pub struct PosSer<W: Write>(pub W);
impl<W: Write> PosSer<W> {
    fn put(&mut self, b: &[u8]) -> Result<(), E> {
        Ok(self.0.write_all(b)?)
    }
}
macro_rules! num {
    ($($f:ident $t:ty),*) => { $(fn $f(self, v: $t) -> Result<(), E> { self.put(&v.to_le_bytes()) })* };
}
impl<'a, W: Write> ser::Serializer for &'a mut PosSer<W> {
    type Ok = ();
    type Error = E;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    num!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, v: bool) -> Result<(), E> {
        self.put(&[v as u8])
    }
    fn serialize_f32(self, v: f32) -> Result<(), E> {
        self.put(&v.to_bits().to_le_bytes())
    }
    fn serialize_f64(self, v: f64) -> Result<(), E> {
        self.put(&v.to_bits().to_le_bytes())
    }
    fn serialize_char(self, v: char) -> Result<(), E> {
        self.put(&(v as u32).to_le_bytes())
    }
    fn serialize_str(self, v: &str) -> Result<(), E> {
        self.put(&(v.len() as u64).to_le_bytes())?;
        self.put(v.as_bytes())
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), E> {
        self.put(&(v.len() as u64).to_le_bytes())?;
        self.put(v)
    }
    fn serialize_none(self) -> Result<(), E> {
        self.put(&[0])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), E> {
        self.put(&[1])?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), E> {
        Ok(())
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, _: &'static str) -> Result<(), E> {
        self.put(&i.to_le_bytes())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<(), E> {
        self.put(&i.to_le_bytes())?;
        v.serialize(self)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, E> {
        let n = n.ok_or_else(|| E("sequence of unknown length".into()))?;
        self.put(&(n as u64).to_le_bytes())?;
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.put(&i.to_le_bytes())?;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, E> {
        self.serialize_seq(n)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self, E> {
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, _: &'static str, _: usize) -> Result<Self, E> {
        self.put(&i.to_le_bytes())?;
        Ok(self)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
macro_rules! pos_compound {
    ($($tr:ident $f:ident),*) => { $(
        impl<'a, W: Write> ser::$tr for &'a mut PosSer<W> {
            type Ok = ();
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { v.serialize(&mut **self) }
            fn end(self) -> Result<(), E> { Ok(()) }
        })* };
}
pos_compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
impl<'a, W: Write> ser::SerializeMap for &'a mut PosSer<W> {
    type Ok = ();
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a, W: Write> ser::SerializeStruct for &'a mut PosSer<W> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}
impl<'a, W: Write> ser::SerializeStructVariant for &'a mut PosSer<W> {
    type Ok = ();
    type Error = E;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), E> {
        v.serialize(&mut **self)
    }
    fn end(self) -> Result<(), E> {
        Ok(())
    }
}

/// reader with one byte of look-ahead, so that a struct can end where the bytes end
pub struct PosDe<R: Read> {
    r: R,
    peek: Option<u8>,
}
impl<R: Read> PosDe<R> {
    pub fn new(r: R) -> Self {
        PosDe { r, peek: None }
    }
    fn get(&mut self, b: &mut [u8]) -> Result<(), E> {
        if b.is_empty() {
            return Ok(());
        }
        let mut at = 0;
        if let Some(p) = self.peek.take() {
            b[0] = p;
            at = 1;
        }
        Ok(self.r.read_exact(&mut b[at..])?)
    }
    pub fn at_end(&mut self) -> Result<bool, E> {
        if self.peek.is_some() {
            return Ok(false);
        }
        let mut b = [0];
        loop {
            match self.r.read(&mut b) {
                Ok(0) => return Ok(true),
                Ok(_) => {
                    self.peek = Some(b[0]);
                    return Ok(false);
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.into()),
            }
        }
    }
    fn len(&mut self) -> Result<usize, E> {
        let mut b = [0; 8];
        self.get(&mut b)?;
        let n = u64::from_le_bytes(b);
        if n > 1 << 20 {
            return Err(E("implausible length".into()));
        }
        Ok(n as usize)
    }
}
struct PosSeq<'a, R: Read> {
    d: &'a mut PosDe<R>,
    left: usize,
    /// a struct or tuple carries no length: it ends where the bytes end
    open: bool,
}
impl<'de, 'a, R: Read> de::SeqAccess<'de> for PosSeq<'a, R> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 || (self.open && self.d.at_end()?) {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.left)
    }
}
impl<'de, 'a, R: Read> de::MapAccess<'de> for PosSeq<'a, R> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        s.deserialize(&mut *self.d).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(&mut *self.d)
    }
}
macro_rules! get_num {
    ($($f:ident $v:ident $t:ty),*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = [0; std::mem::size_of::<$t>()];
        self.get(&mut b)?;
        v.$v(<$t>::from_le_bytes(b))
    })* };
}
impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut PosDe<R> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, E> {
        Err(E("a positional format cannot describe itself".into()))
    }
    get_num!(deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64,
        deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_f32 visit_f32 f32, deserialize_f64 visit_f64 f64);
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = [0];
        self.get(&mut b)?;
        match b[0] {
            0 => v.visit_bool(false),
            1 => v.visit_bool(true),
            _ => Err(E("not a bool".into())),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = [0; 4];
        self.get(&mut b)?;
        v.visit_char(char::from_u32(u32::from_le_bytes(b)).ok_or_else(|| E("not a char".into()))?)
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_string(v)
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = vec![0; self.len()?];
        self.get(&mut b)?;
        v.visit_string(String::from_utf8(b).map_err(|_| E("not text".into()))?)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = vec![0; self.len()?];
        self.get(&mut b)?;
        v.visit_byte_buf(b)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let mut b = [0];
        self.get(&mut b)?;
        match b[0] {
            0 => v.visit_none(),
            1 => v.visit_some(self),
            _ => Err(E("not an option".into())),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let left = self.len()?;
        v.visit_seq(PosSeq { d: self, left, open: false })
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(PosSeq { d: self, left: n, open: true })
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(PosSeq { d: self, left: n, open: true })
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        let left = self.len()?;
        v.visit_map(PosSeq { d: self, left, open: false })
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(PosSeq { d: self, left: f.len(), open: true })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_enum(PosEnum(self))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_u32(v)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.deserialize_any(v)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}
struct PosEnum<'a, R: Read>(&'a mut PosDe<R>);
impl<'de, 'a, R: Read> de::EnumAccess<'de> for PosEnum<'a, R> {
    type Error = E;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), E> {
        let mut b = [0; 4];
        self.0.get(&mut b)?;
        let d: de::value::U32Deserializer<E> = u32::from_le_bytes(b).into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de, 'a, R: Read> de::VariantAccess<'de> for PosEnum<'a, R> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        Ok(())
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        s.deserialize(self.0)
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, E> {
        v.visit_seq(PosSeq { d: self.0, left: n, open: true })
    }
    fn struct_variant<V: Visitor<'de>>(self, f: &'static [&'static str], v: V) -> Result<V::Value, E> {
        v.visit_seq(PosSeq { d: self.0, left: f.len(), open: true })
    }
}

// ------------------------------------------------------------------ trees

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    I(i64),
    U(u64),
    F(u64),
    Str(String),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
}

/// how a tree is written and read, and which call on it fails
pub struct Tree {
    pub named: bool,
    pub human: bool,
    /// calls left before one fails
    pub left: Cell<u64>,
    pub fired: Cell<bool>,
    /// crash instead of failing
    pub crash: bool,
}
impl Tree {
    pub fn new(named: bool, human: bool) -> Self {
        Tree { named, human, left: Cell::new(u64::MAX), fired: Cell::new(false), crash: false }
    }
    fn tick(&self) -> Result<(), E> {
        let n = self.left.get();
        if n == 0 {
            if self.crash {
                unsafe { crate::env::_exit(crate::env::EXIT_CRASH) }
            }
            self.fired.set(true);
            return Err(E("injected fault".into()));
        }
        self.left.set(n - 1);
        Ok(())
    }
}
pub struct ValSeq<'t> {
    t: &'t Tree,
    v: Vec<Val>,
    m: Vec<(Val, Val)>,
    key: Option<Val>,
    map: bool,
    tag: Option<Val>,
}
impl<'t> ValSeq<'t> {
    fn new(t: &'t Tree, map: bool, tag: Option<Val>) -> Self {
        ValSeq { t, v: vec![], m: vec![], key: None, map, tag }
    }
    fn done(self) -> Result<Val, E> {
        self.t.tick()?;
        let v = if self.map { Val::Map(self.m) } else { Val::Seq(self.v) };
        Ok(match self.tag {
            Some(t) => Val::Map(vec![(t, v)]),
            None => v,
        })
    }
}
impl Tree {
    fn tag(&self, i: u32, n: &'static str) -> Val {
        if self.named {
            Val::Str(n.into())
        } else {
            Val::U(i as u64)
        }
    }
}
macro_rules! leaf {
    ($($f:ident $t:ty => |$v:ident| $e:expr),*) => { $(fn $f(self, $v: $t) -> Result<Val, E> { self.tick()?; Ok($e) })* };
}
impl<'t> ser::Serializer for &'t Tree {
    type Ok = Val;
    type Error = E;
    type SerializeSeq = ValSeq<'t>;
    type SerializeTuple = ValSeq<'t>;
    type SerializeTupleStruct = ValSeq<'t>;
    type SerializeTupleVariant = ValSeq<'t>;
    type SerializeMap = ValSeq<'t>;
    type SerializeStruct = ValSeq<'t>;
    type SerializeStructVariant = ValSeq<'t>;
    leaf!(serialize_bool bool => |v| Val::Bool(v), serialize_i8 i8 => |v| Val::I(v as i64), serialize_i16 i16 => |v| Val::I(v as i64),
        serialize_i32 i32 => |v| Val::I(v as i64), serialize_i64 i64 => |v| Val::I(v), serialize_u8 u8 => |v| Val::U(v as u64),
        serialize_u16 u16 => |v| Val::U(v as u64), serialize_u32 u32 => |v| Val::U(v as u64), serialize_u64 u64 => |v| Val::U(v),
        serialize_f32 f32 => |v| Val::F((v as f64).to_bits()), serialize_f64 f64 => |v| Val::F(v.to_bits()), serialize_char char => |v| Val::Str(v.to_string()),
        serialize_str &str => |v| Val::Str(v.into()), serialize_bytes &[u8] => |v| Val::Seq(v.iter().map(|b| Val::U(*b as u64)).collect()));
    fn serialize_none(self) -> Result<Val, E> {
        self.tick()?;
        Ok(Val::Null)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Val, E> {
        self.tick()?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<Val, E> {
        self.tick()?;
        Ok(Val::Null)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, E> {
        self.tick()?;
        Ok(Val::Null)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<Val, E> {
        self.tick()?;
        Ok(self.tag(i, n))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Val, E> {
        self.tick()?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> Result<Val, E> {
        self.tick()?;
        Ok(Val::Map(vec![(self.tag(i, n), v.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<ValSeq<'t>, E> {
        self.tick()?;
        Ok(ValSeq::new(self, false, None))
    }
    fn serialize_tuple(self, _: usize) -> Result<ValSeq<'t>, E> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<ValSeq<'t>, E> {
        self.serialize_seq(None)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<ValSeq<'t>, E> {
        self.tick()?;
        Ok(ValSeq::new(self, false, Some(self.tag(i, n))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<ValSeq<'t>, E> {
        self.tick()?;
        Ok(ValSeq::new(self, true, None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<ValSeq<'t>, E> {
        self.tick()?;
        Ok(ValSeq::new(self, self.named, None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<ValSeq<'t>, E> {
        self.tick()?;
        Ok(ValSeq::new(self, self.named, Some(self.tag(i, n))))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}
macro_rules! val_compound {
    ($($tr:ident $f:ident),*) => { $(
        impl<'t> ser::$tr for ValSeq<'t> {
            type Ok = Val;
            type Error = E;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> { self.t.tick()?; self.v.push(v.serialize(self.t)?); Ok(()) }
            fn end(self) -> Result<Val, E> { self.done() }
        })* };
}
val_compound!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! val_struct {
    ($($tr:ident),*) => { $(
        impl<'t> ser::$tr for ValSeq<'t> {
            type Ok = Val;
            type Error = E;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, n: &'static str, v: &T) -> Result<(), E> {
                self.t.tick()?;
                let v = v.serialize(self.t)?;
                if self.map { self.m.push((Val::Str(n.into()), v)) } else { self.v.push(v) }
                Ok(())
            }
            fn end(self) -> Result<Val, E> { self.done() }
        })* };
}
val_struct!(SerializeStruct, SerializeStructVariant);
impl<'t> ser::SerializeMap for ValSeq<'t> {
    type Ok = Val;
    type Error = E;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.t.tick()?;
        self.key = Some(v.serialize(self.t)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
        self.t.tick()?;
        let v = v.serialize(self.t)?;
        self.m.push((self.key.take().ok_or_else(|| E("value without key".into()))?, v));
        Ok(())
    }
    fn end(self) -> Result<Val, E> {
        self.done()
    }
}

#[derive(Clone, Copy)]
pub struct ValDe<'v> {
    pub t: &'v Tree,
    pub v: &'v Val,
}
struct Items<'v> {
    t: &'v Tree,
    i: std::slice::Iter<'v, Val>,
}
impl<'de, 'v> de::SeqAccess<'de> for Items<'v> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.t.tick()?;
        match self.i.next() {
            Some(v) => s.deserialize(ValDe { t: self.t, v }).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.i.len())
    }
}
struct Pairs<'v> {
    t: &'v Tree,
    i: std::slice::Iter<'v, (Val, Val)>,
    v: Option<&'v Val>,
}
impl<'de, 'v> de::MapAccess<'de> for Pairs<'v> {
    type Error = E;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.t.tick()?;
        match self.i.next() {
            Some((k, v)) => {
                self.v = Some(v);
                s.deserialize(ValDe { t: self.t, v: k }).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, E> {
        self.t.tick()?;
        let v = self.v.take().ok_or_else(|| E("value without key".into()))?;
        s.deserialize(ValDe { t: self.t, v })
    }
}
impl<'de, 'v> de::Deserializer<'de> for ValDe<'v> {
    type Error = E;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.t.tick()?;
        match self.v {
            Val::Null => v.visit_unit(),
            Val::Bool(b) => v.visit_bool(*b),
            Val::I(i) => v.visit_i64(*i),
            Val::U(u) => v.visit_u64(*u),
            Val::F(f) => v.visit_f64(f64::from_bits(*f)),
            Val::Str(s) => v.visit_str(s),
            Val::Seq(s) => v.visit_seq(Items { t: self.t, i: s.iter() }),
            Val::Map(m) => v.visit_map(Pairs { t: self.t, i: m.iter(), v: None }),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        self.t.tick()?;
        match self.v {
            Val::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, E> {
        self.t.tick()?;
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.t.tick()?;
        v.visit_enum(ValEnum(self))
    }
    fn is_human_readable(&self) -> bool {
        self.t.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct identifier ignored_any
    }
}
struct ValEnum<'v>(ValDe<'v>);
impl<'de, 'v> de::EnumAccess<'de> for ValEnum<'v> {
    type Error = E;
    type Variant = ValVar<'v>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, ValVar<'v>), E> {
        let t = self.0.t;
        t.tick()?;
        let (tag, body) = match self.0.v {
            Val::Map(m) if m.len() == 1 => (&m[0].0, Some(&m[0].1)),
            v => (v, None),
        };
        Ok((s.deserialize(ValDe { t, v: tag })?, ValVar { t, v: body }))
    }
}
struct ValVar<'v> {
    t: &'v Tree,
    v: Option<&'v Val>,
}
impl<'de, 'v> de::VariantAccess<'de> for ValVar<'v> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.v {
            None | Some(Val::Null) => Ok(()),
            _ => Err(E("not a unit variant".into())),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, E> {
        let v = self.v.ok_or_else(|| E("variant without content".into()))?;
        s.deserialize(ValDe { t: self.t, v })
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, E> {
        let x = self.v.ok_or_else(|| E("variant without content".into()))?;
        de::Deserializer::deserialize_any(ValDe { t: self.t, v: x }, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, E> {
        self.tuple_variant(0, v)
    }
}

impl Val {
    pub fn to_bytes(&self, o: &mut Vec<u8>) {
        match self {
            Val::Null => o.push(0),
            Val::Bool(b) => o.extend([1, *b as u8]),
            Val::I(i) => {
                o.push(2);
                o.extend(i.to_le_bytes());
            }
            Val::U(u) => {
                o.push(3);
                o.extend(u.to_le_bytes());
            }
            Val::F(u) => {
                o.push(4);
                o.extend(u.to_le_bytes());
            }
            Val::Str(s) => {
                o.push(5);
                o.extend((s.len() as u32).to_le_bytes());
                o.extend(s.as_bytes());
            }
            Val::Seq(s) => {
                o.push(6);
                for v in s {
                    v.to_bytes(o);
                }
                o.push(255);
            }
            Val::Map(m) => {
                o.push(7);
                for (k, v) in m {
                    k.to_bytes(o);
                    v.to_bytes(o);
                }
                o.push(255);
            }
        }
    }
    /// Reads a possibly torn tree: containers end where the bytes end. False: ended early.
    pub fn from_bytes(b: &[u8], at: &mut usize) -> Option<(Val, bool)> {
        let n = |at: &mut usize| -> Option<u64> {
            let x = b.get(*at..*at + 8)?;
            *at += 8;
            Some(u64::from_le_bytes(x.try_into().ok()?))
        };
        let t = *b.get(*at)?;
        *at += 1;
        Some(match t {
            0 => (Val::Null, true),
            1 => {
                let x = *b.get(*at)?;
                *at += 1;
                (Val::Bool(x != 0), true)
            }
            2 => (Val::I(n(at)? as i64), true),
            3 => (Val::U(n(at)?), true),
            4 => (Val::F(n(at)?), true),
            5 => {
                let l = u32::from_le_bytes(b.get(*at..*at + 4)?.try_into().ok()?) as usize;
                *at += 4;
                let s = String::from_utf8(b.get(*at..*at + l)?.to_vec()).ok()?;
                *at += l;
                (Val::Str(s), true)
            }
            6 | 7 => {
                let mut v = Vec::new();
                let mut whole = true;
                loop {
                    match b.get(*at) {
                        Some(255) => {
                            *at += 1;
                            break;
                        }
                        None => {
                            whole = false;
                            break;
                        }
                        _ => {}
                    }
                    match Val::from_bytes(b, at) {
                        Some((x, w)) => {
                            v.push(x);
                            if !w {
                                whole = false;
                                break;
                            }
                        }
                        None => {
                            *at = b.len();
                            whole = false;
                            break;
                        }
                    }
                }
                if t == 6 {
                    (Val::Seq(v), whole)
                } else {
                    let mut m = Vec::new();
                    let mut i = v.into_iter();
                    while let (Some(k), Some(x)) = (i.next(), i.next()) {
                        m.push((k, x));
                    }
                    (Val::Map(m), whole)
                }
            }
            _ => return None,
        })
    }
}
