//! A serialization format owned by the simulator. Saving produces a tree of events, loading plays
//! one back: as named or positional fields, in any field order, with borrowed, owned, byte or index
//! keys, and with a failure at any event. Every event is also a place where the scheduler may act.
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use simcore::engine::{rec, seam};
use simcore::shared::ctr;
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    U64(u64),
    I64(i64),
    F32(f32),
    F64(f64),
    Str(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Val>),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Struct(&'static str, Vec<(String, Val)>),
    Newtype(&'static str, Box<Val>),
    UnitStruct(&'static str),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Injected,
    Msg(String),
}
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Fail::Injected => f.write_str("injected"),
            Fail::Msg(s) => f.write_str(s),
        }
    }
}
impl std::error::Error for Fail {}
impl ser::Error for Fail {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Fail::Msg(m.to_string())
    }
}
impl de::Error for Fail {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Fail::Msg(m.to_string())
    }
}

/// Counts events and makes one of them fail.
#[derive(Default)]
pub struct Ctl {
    pub ev: Cell<u64>,
    pub fail_at: Cell<u64>,
    /// the injected failure happened
    pub fired: Cell<bool>,
    /// only one event fails, later ones would succeed
    pub once: bool,
}
impl Ctl {
    pub fn new(fail_at: u64) -> Ctl {
        Ctl { ev: Cell::new(0), fail_at: Cell::new(fail_at), fired: Cell::new(false), once: false }
    }
    pub fn once(fail_at: u64) -> Ctl {
        Ctl { once: true, ..Ctl::new(fail_at) }
    }
    pub fn event(&self) -> Result<(), Fail> {
        seam();
        let k = self.ev.get();
        self.ev.set(k + 1);
        // usually a broken medium stays broken for this attempt
        if k >= self.fail_at.get() && !(self.once && self.fired.get()) {
            if !self.fired.get() {
                self.fired.set(true);
                rec().ctr[ctr::CODEC_FAULT] += 1;
            }
            return Err(Fail::Injected);
        }
        Ok(())
    }
}

pub fn save<T: Serialize + ?Sized>(v: &T, c: &Ctl) -> Result<Val, Fail> {
    v.serialize(Ser { c })
}

// ---------------------------------------------------------------- saving

#[derive(Clone, Copy)]
pub struct Ser<'a> {
    pub c: &'a Ctl,
}
pub struct SeqS<'a> {
    c: &'a Ctl,
    v: Vec<Val>,
}
pub struct MapS<'a> {
    c: &'a Ctl,
    v: Vec<(Val, Val)>,
    k: Option<Val>,
}
pub struct StructS<'a> {
    c: &'a Ctl,
    n: &'static str,
    v: Vec<(String, Val)>,
}

macro_rules! prim {
    ($($m:ident $t:ty => $e:expr),*) => { $( fn $m(self, v: $t) -> Result<Val, Fail> { self.c.event()?; Ok($e(v)) } )* };
}
impl<'a> ser::Serializer for Ser<'a> {
    type Ok = Val;
    type Error = Fail;
    type SerializeSeq = SeqS<'a>;
    type SerializeTuple = SeqS<'a>;
    type SerializeTupleStruct = SeqS<'a>;
    type SerializeTupleVariant = SeqS<'a>;
    type SerializeMap = MapS<'a>;
    type SerializeStruct = StructS<'a>;
    type SerializeStructVariant = StructS<'a>;
    prim!(serialize_bool bool => Val::Bool, serialize_f32 f32 => Val::F32, serialize_f64 f64 => Val::F64,
          serialize_i8 i8 => |v| Val::I64(v as i64), serialize_i16 i16 => |v| Val::I64(v as i64),
          serialize_i32 i32 => |v| Val::I64(v as i64), serialize_i64 i64 => Val::I64,
          serialize_u8 u8 => |v| Val::U64(v as u64), serialize_u16 u16 => |v| Val::U64(v as u64),
          serialize_u32 u32 => |v| Val::U64(v as u64), serialize_u64 u64 => Val::U64,
          serialize_char char => |v: char| Val::Str(v.to_string()),
          serialize_str &str => |v: &str| Val::Str(v.to_string()),
          serialize_bytes &[u8] => |v: &[u8]| Val::Bytes(v.to_vec()));
    fn serialize_none(self) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::UnitStruct(n))
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Str(v.to_string()))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(
        self,
        _: &'static str,
        _: u32,
        var: &'static str,
        v: &T,
    ) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Map(vec![(Val::Str(var.to_string()), v.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqS<'a>, Fail> {
        self.c.event()?;
        Ok(SeqS { c: self.c, v: vec![] })
    }
    fn serialize_tuple(self, n: usize) -> Result<SeqS<'a>, Fail> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqS<'a>, Fail> {
        self.serialize_seq(Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<SeqS<'a>, Fail> {
        self.serialize_seq(Some(n))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapS<'a>, Fail> {
        self.c.event()?;
        Ok(MapS { c: self.c, v: vec![], k: None })
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<StructS<'a>, Fail> {
        self.c.event()?;
        Ok(StructS { c: self.c, n, v: vec![] })
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        n: &'static str,
        _: usize,
    ) -> Result<StructS<'a>, Fail> {
        self.c.event()?;
        Ok(StructS { c: self.c, n, v: vec![] })
    }
}
impl<'a> ser::SerializeSeq for SeqS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        let x = v.serialize(Ser { c: self.c })?;
        self.v.push(x);
        Ok(())
    }
    fn end(self) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Seq(self.v))
    }
}
impl<'a> ser::SerializeTuple for SeqS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, Fail> {
        ser::SerializeSeq::end(self)
    }
}
impl<'a> ser::SerializeTupleStruct for SeqS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, Fail> {
        ser::SerializeSeq::end(self)
    }
}
impl<'a> ser::SerializeTupleVariant for SeqS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        ser::SerializeSeq::serialize_element(self, v)
    }
    fn end(self) -> Result<Val, Fail> {
        ser::SerializeSeq::end(self)
    }
}
impl<'a> ser::SerializeMap for MapS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        self.k = Some(v.serialize(Ser { c: self.c })?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        let x = v.serialize(Ser { c: self.c })?;
        let k = self.k.take().ok_or(Fail::Msg("value without key".into()))?;
        self.v.push((k, x));
        Ok(())
    }
    fn end(self) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Map(self.v))
    }
}
impl<'a> ser::SerializeStruct for StructS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        self.c.event()?;
        let x = v.serialize(Ser { c: self.c })?;
        self.v.push((k.to_string(), x));
        Ok(())
    }
    fn end(self) -> Result<Val, Fail> {
        self.c.event()?;
        Ok(Val::Struct(self.n, self.v))
    }
}
impl<'a> ser::SerializeStructVariant for StructS<'a> {
    type Ok = Val;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        ser::SerializeStruct::serialize_field(self, k, v)
    }
    fn end(self) -> Result<Val, Fail> {
        ser::SerializeStruct::end(self)
    }
}

// ---------------------------------------------------------------- loading

/// How the stored tree is presented to the loader.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Pres {
    /// 0: named fields, 1: positional fields, 2: alternating with the depth
    pub shape: u8,
    /// 0: borrowed text keys, 1: owned text, 2: bytes, 3: field index, 4: owned bytes
    pub key: u8,
    /// permutation of the fields (named only)
    pub perm: u64,
    /// 0: exact size hints, 1: none, 2: absurdly large
    pub hint: u8,
    pub human: bool,
    /// report numbers of single precision as double precision
    pub widen: bool,
}
impl Default for Pres {
    fn default() -> Self {
        Pres { shape: 0, key: 0, perm: 0, hint: 0, human: true, widen: false }
    }
}

pub fn load<'de, T: de::Deserialize<'de>>(v: &'de Val, p: Pres, c: &'de Ctl) -> Result<T, Fail> {
    T::deserialize(De { v, p, c, depth: 0 })
}

#[derive(Clone, Copy)]
pub struct De<'de> {
    v: &'de Val,
    p: Pres,
    c: &'de Ctl,
    depth: u32,
}

fn hint(p: Pres, n: usize) -> Option<usize> {
    match p.hint {
        0 => Some(n),
        1 => None,
        _ => Some(usize::MAX / 2),
    }
}

impl<'de> De<'de> {
    fn sub(&self, v: &'de Val) -> De<'de> {
        De { v, depth: self.depth + 1, ..*self }
    }
    fn seq<V: Visitor<'de>>(self, it: Vec<&'de Val>, vis: V) -> Result<V::Value, Fail> {
        let mut a = SeqA { d: self, it, i: 0 };
        let r = vis.visit_seq(&mut a)?;
        if a.i < a.it.len() {
            return Err(Fail::Msg("trailing elements".into()));
        }
        self.c.event()?;
        Ok(r)
    }
    fn strukt<V: Visitor<'de>>(
        self,
        fields: &'de [(String, Val)],
        known: &'static [&'static str],
        vis: V,
    ) -> Result<V::Value, Fail> {
        let positional = match self.p.shape {
            0 => false,
            1 => true,
            _ => self.depth % 2 == 1,
        };
        if positional {
            return self.seq(fields.iter().map(|f| &f.1).collect(), vis);
        }
        let mut idx: Vec<usize> = (0..fields.len()).collect();
        let mut r = simcore::rng::Rng::new(self.p.perm ^ self.depth as u64);
        if self.p.perm != 0 {
            for i in (1..idx.len()).rev() {
                idx.swap(i, r.usize(i + 1));
            }
        }
        let mut a = MapA { d: self, f: fields, idx, i: 0, known };
        let r = vis.visit_map(&mut a)?;
        if a.i < a.idx.len() {
            return Err(Fail::Msg("trailing entries".into()));
        }
        self.c.event()?;
        Ok(r)
    }
}

struct SeqA<'de> {
    d: De<'de>,
    it: Vec<&'de Val>,
    i: usize,
}
impl<'de> de::SeqAccess<'de> for &mut SeqA<'de> {
    type Error = Fail;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Fail> {
        self.d.c.event()?;
        if self.i >= self.it.len() {
            return Ok(None);
        }
        let v = self.it[self.i];
        self.i += 1;
        s.deserialize(self.d.sub(v)).map(Some)
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.d.p, self.it.len() - self.i)
    }
}
struct MapA<'de> {
    d: De<'de>,
    f: &'de [(String, Val)],
    idx: Vec<usize>,
    i: usize,
    known: &'static [&'static str],
}
impl<'de> de::MapAccess<'de> for &mut MapA<'de> {
    type Error = Fail;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Fail> {
        self.d.c.event()?;
        if self.i >= self.idx.len() {
            return Ok(None);
        }
        let k: &'de str = &self.f[self.idx[self.i]].0;
        let r: K::Value = match self.d.p.key {
            1 => s.deserialize(String::from(k).into_deserializer()),
            2 => s.deserialize(de::value::BorrowedBytesDeserializer::new(k.as_bytes())),
            4 => s.deserialize(de::value::BytesDeserializer::new(k.as_bytes())),
            3 => match self.known.iter().position(|x| *x == k) {
                Some(p) => s.deserialize((p as u64).into_deserializer()),
                None => s.deserialize(de::value::BorrowedStrDeserializer::new(k)),
            },
            _ => s.deserialize(de::value::BorrowedStrDeserializer::new(k)),
        }?;
        Ok(Some(r))
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Fail> {
        self.d.c.event()?;
        let v = &self.f[self.idx[self.i]].1;
        self.i += 1;
        s.deserialize(self.d.sub(v))
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.d.p, self.idx.len() - self.i)
    }
}
struct PairA<'de> {
    d: De<'de>,
    f: &'de [(Val, Val)],
    i: usize,
}
impl<'de> de::MapAccess<'de> for &mut PairA<'de> {
    type Error = Fail;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Fail> {
        self.d.c.event()?;
        if self.i >= self.f.len() {
            return Ok(None);
        }
        s.deserialize(self.d.sub(&self.f[self.i].0)).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Fail> {
        self.d.c.event()?;
        let v = &self.f[self.i].1;
        self.i += 1;
        s.deserialize(self.d.sub(v))
    }
}

impl<'de> de::Deserializer<'de> for De<'de> {
    type Error = Fail;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Fail> {
        self.c.event()?;
        match self.v {
            Val::Unit | Val::UnitStruct(_) => vis.visit_unit(),
            Val::Bool(b) => vis.visit_bool(*b),
            Val::U64(n) => vis.visit_u64(*n),
            Val::I64(n) => vis.visit_i64(*n),
            Val::F32(x) if !self.p.widen => vis.visit_f32(*x),
            Val::F32(x) => vis.visit_f64(*x as f64),
            Val::F64(x) => vis.visit_f64(*x),
            Val::Str(s) => vis.visit_borrowed_str(s),
            Val::Bytes(b) => vis.visit_borrowed_bytes(b),
            Val::None => vis.visit_none(),
            Val::Some(v) => vis.visit_some(self.sub(v)),
            Val::Newtype(_, v) => vis.visit_newtype_struct(self.sub(v)),
            Val::Seq(v) => self.seq(v.iter().collect(), vis),
            Val::Map(v) => {
                let mut a = PairA { d: self, f: v, i: 0 };
                let r = vis.visit_map(&mut a)?;
                if a.i < v.len() {
                    return Err(Fail::Msg("trailing entries".into()));
                }
                Ok(r)
            }
            Val::Struct(_, f) => self.strukt(f, &[], vis),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        known: &'static [&'static str],
        vis: V,
    ) -> Result<V::Value, Fail> {
        match self.v {
            Val::Struct(_, f) => {
                self.c.event()?;
                self.strukt(f, known, vis)
            }
            _ => self.deserialize_any(vis),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Fail> {
        match self.v {
            Val::Newtype(_, v) => {
                self.c.event()?;
                vis.visit_newtype_struct(self.sub(v))
            }
            _ => vis.visit_newtype_struct(self),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Fail> {
        match self.v {
            Val::None | Val::Unit => vis.visit_none(),
            Val::Some(v) => vis.visit_some(self.sub(v)),
            _ => vis.visit_some(self),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.p.human
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map enum identifier ignored_any
    }
}
