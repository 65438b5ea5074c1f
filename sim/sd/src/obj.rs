//! Objects that can be saved, whatever their type, and the formats.
use crate::disk::Io;
use crate::val;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use simcodec::{Ctl, Pres, Val};
use std::any::Any;
use std::fmt::Debug;
use std::io::{Read, Write};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fam {
    Json,
    Bin,
    BinVar,
    Cbor,
    Ron,
    Tree,
}
pub const FAMS: [Fam; 6] = [Fam::Json, Fam::Bin, Fam::BinVar, Fam::Cbor, Fam::Ron, Fam::Tree];

/// What else the file contains besides the object.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wrap {
    Plain,
    List,
    Tagged,
    Flat,
    Untagged,
}

/// One way to save or load.
#[derive(Clone, Debug)]
pub struct Fmt {
    pub fam: Fam,
    /// save: 1 pretty, 2 through a document value; load: 1 from memory, 2 through a document value
    pub var: u8,
    pub wrap: Wrap,
    pub pres: Pres,
    pub event: u64,
    pub once: bool,
}
impl Fmt {
    pub fn new(fam: Fam, var: u8, wrap: Wrap, io: &Io) -> Fmt {
        Fmt { fam, var, wrap, pres: Pres::default(), event: io.event.unwrap_or(u64::MAX), once: io.once }
    }
}

pub trait Obj {
    /// Err: the text of the failure. The flag tells that an injected format failure struck.
    fn save(&self, f: &Fmt, w: &mut dyn Write, struck: &mut bool) -> Result<(), String>;
    fn tree(&self) -> Val;
    /// exactly the parameters, as bits
    fn params(&self) -> Vec<u64>;
    /// everything a user can observe
    fn probe(&self) -> Vec<u64>;
    fn same(&self, o: &dyn Obj) -> bool;
    /// built afresh from its own parameters
    fn rebuilt(&self) -> Option<Box<dyn Obj>>;
    fn any(&self) -> &dyn Any;
    fn text(&self) -> String;
}

pub trait Thing: Serialize + DeserializeOwned + PartialEq + Debug + Clone + 'static {
    fn params(&self) -> Vec<u64>;
    fn probe(&self, o: &mut Vec<u64>);
    fn rebuilt(&self) -> Option<Self>;
    /// a type of the outside world may contain this one
    const WRAPS: bool = false;
}

pub struct W<T>(pub T);

#[derive(Serialize, Deserialize)]
struct FlatRec<T> {
    id: u32,
    #[serde(flatten)]
    inner: T,
    name: String,
}
#[derive(Serialize, Deserialize)]
#[serde(tag = "kind")]
enum TaggedRec<T> {
    Empty,
    Device(T),
}
#[derive(Serialize, Deserialize)]
#[serde(untagged)]
enum UntaggedRec<T> {
    Number(u32),
    Device(T),
}

struct Count<'a> {
    w: &'a mut dyn Write,
}
impl Write for Count<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.w.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.w.flush()
    }
}

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}

fn save_as<T: Serialize>(v: &T, f: &Fmt, w: &mut dyn Write, struck: &mut bool) -> Result<(), String> {
    let mut w = Count { w };
    match f.fam {
        Fam::Json => match f.var {
            1 => serde_json::to_writer_pretty(&mut w, v).map_err(e),
            2 => {
                let x = serde_json::to_value(v).map_err(e)?;
                serde_json::to_writer(&mut w, &x).map_err(e)
            }
            _ => serde_json::to_writer(&mut w, v).map_err(e),
        },
        Fam::Bin => bincode::serialize_into(&mut w, v).map_err(e),
        Fam::BinVar => {
            use bincode::Options;
            bincode::DefaultOptions::new().with_big_endian().serialize_into(&mut w, v).map_err(e)
        }
        Fam::Cbor => ciborium::into_writer(v, &mut w).map_err(e),
        Fam::Ron => {
            let s = if f.var == 1 {
                ron::ser::to_string_pretty(v, ron::ser::PrettyConfig::default()).map_err(e)?
            } else {
                ron::to_string(v).map_err(e)?
            };
            w.write_all(s.as_bytes()).map_err(e)
        }
        Fam::Tree => {
            let c = if f.once { Ctl::once(f.event) } else { Ctl::new(f.event) };
            let r = simcodec::save(v, &c);
            *struck |= c.fired.get();
            let t = r.map_err(e)?;
            w.write_all(&val::encode(&t)).map_err(e)
        }
    }
}

fn load_as<T: DeserializeOwned>(f: &Fmt, r: &mut dyn Read) -> Result<T, String> {
    let all = |r: &mut dyn Read| -> Result<Vec<u8>, String> {
        let mut v = vec![];
        r.read_to_end(&mut v).map_err(e)?;
        Ok(v)
    };
    match f.fam {
        Fam::Json => match f.var {
            1 => serde_json::from_slice(&all(r)?).map_err(e),
            2 => {
                let x: serde_json::Value = serde_json::from_reader(r).map_err(e)?;
                serde_json::from_value(x).map_err(e)
            }
            _ => serde_json::from_reader(r).map_err(e),
        },
        Fam::Bin => match f.var {
            1 => bincode::deserialize(&all(r)?).map_err(e),
            _ => bincode::deserialize_from(r).map_err(e),
        },
        Fam::BinVar => {
            use bincode::Options;
            bincode::DefaultOptions::new().with_big_endian().deserialize_from(r).map_err(e)
        }
        Fam::Cbor => match f.var {
            1 => ciborium::from_reader(&all(r)?[..]).map_err(e),
            _ => ciborium::from_reader(r).map_err(e),
        },
        Fam::Ron => {
            let v = String::from_utf8(all(r)?).map_err(e)?;
            ron::from_str(&v).map_err(e)
        }
        Fam::Tree => {
            let v = all(r)?;
            let t = val::decode(&v)?;
            let c = if f.once { Ctl::once(f.event) } else { Ctl::new(f.event) };
            let r = simcodec::load::<T>(&t, f.pres, &c).map_err(e);
            if c.fired.get() && r.is_ok() {
                return Err("\0swallowed".into());
            }
            r
        }
    }
}

/// The two text-like document families support wrapping.
fn wraps(f: &Fmt) -> bool {
    f.wrap != Wrap::Plain && matches!(f.fam, Fam::Json)
}

impl<T: Thing> Obj for W<T> {
    fn save(&self, f: &Fmt, w: &mut dyn Write, struck: &mut bool) -> Result<(), String> {
        if T::WRAPS && wraps(f) {
            let v = self.0.clone();
            match f.wrap {
                Wrap::List => return save_as(&vec![v.clone(), v], f, w, struck),
                Wrap::Tagged => return save_as(&TaggedRec::Device(v), f, w, struck),
                Wrap::Untagged => return save_as(&UntaggedRec::Device(v), f, w, struck),
                Wrap::Flat => return save_as(&FlatRec { id: 7, inner: v, name: "left".into() }, f, w, struck),
                Wrap::Plain => {}
            }
        }
        save_as(&self.0, f, w, struck)
    }
    fn tree(&self) -> Val {
        simcodec::save(&self.0, &Ctl::new(u64::MAX)).unwrap_or(Val::Unit)
    }
    fn params(&self) -> Vec<u64> {
        self.0.params()
    }
    fn probe(&self) -> Vec<u64> {
        let mut v = vec![];
        let n = self.0.params();
        // sizes nobody can have saved: nothing is computed from them
        if n.len() > 1 << 15 {
            return v;
        }
        self.0.probe(&mut v);
        for b in format!("{:?}", self.0).into_bytes() {
            v.push(b as u64);
        }
        let c = self.0.clone();
        v.push((c == self.0) as u64);
        v
    }
    fn same(&self, o: &dyn Obj) -> bool {
        o.any().downcast_ref::<W<T>>().is_some_and(|x| x.0 == self.0 && self.0 == x.0)
    }
    fn rebuilt(&self) -> Option<Box<dyn Obj>> {
        self.0.rebuilt().map(|x| Box::new(W(x)) as Box<dyn Obj>)
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn text(&self) -> String {
        format!("{:?}", self.0)
    }
}

pub fn load_thing<T: Thing>(f: &Fmt, r: &mut dyn Read) -> Result<Box<dyn Obj>, String> {
    if T::WRAPS && wraps(f) {
        let v: T = match f.wrap {
            Wrap::List => {
                let mut v: Vec<T> = load_as(f, r)?;
                let a = v.pop().ok_or("empty list")?;
                let b = v.pop().ok_or("short list")?;
                // (an object with numbers that are not, in its caches say, does not equal itself)
                let sound = |x: &T| x.clone() == *x;
                if a != b && sound(&a) && sound(&b) {
                    return Err("the two objects of the list differ".into());
                }
                a
            }
            Wrap::Tagged => match load_as::<TaggedRec<T>>(f, r)? {
                TaggedRec::Device(v) => v,
                _ => return Err("other variant".into()),
            },
            Wrap::Untagged => match load_as::<UntaggedRec<T>>(f, r)? {
                UntaggedRec::Device(v) => v,
                _ => return Err("other variant".into()),
            },
            Wrap::Flat => load_as::<FlatRec<T>>(f, r)?.inner,
            Wrap::Plain => load_as(f, r)?,
        };
        return Ok(Box::new(W(v)));
    }
    Ok(Box::new(W(load_as::<T>(f, r)?)))
}

/// Numbers of a tree with the name of the field they belong to, in a fixed order.
pub fn leaves(v: &Val) -> Vec<u64> {
    fn go(v: &Val, path: &str, o: &mut Vec<(String, u64)>) {
        match v {
            Val::F64(x) => o.push((path.into(), bits(*x))),
            Val::F32(x) => o.push((path.into(), bits(*x as f64))),
            Val::U64(x) => o.push((path.into(), *x)),
            Val::I64(x) => o.push((path.into(), *x as u64)),
            Val::Newtype(_, x) | Val::Some(x) => go(x, path, o),
            Val::Seq(s) => s.iter().enumerate().for_each(|(i, x)| go(x, &format!("{path}.{i:06}"), o)),
            Val::Map(s) => s.iter().for_each(|(_, x)| go(x, path, o)),
            Val::Struct(_, s) => s.iter().for_each(|(k, x)| go(x, &format!("{path}/{k}"), o)),
            _ => {}
        }
    }
    let mut o = vec![];
    go(v, "", &mut o);
    o.sort();
    o.into_iter().map(|x| x.1).collect()
}

/// Bits of a number; all invalid values are alike.
pub fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}
