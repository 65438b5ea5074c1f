//! Trees of saved data: binary encoding, presentation as JSON or CBOR the way another program might
//! write them, and damage to their structure.
use serde::{Deserialize, Serialize};
use simcodec::Val;
use simcore::rng::Rng;

// ------------------------------------------------------------- binary encoding

pub fn encode(v: &Val) -> Vec<u8> {
    let mut o = vec![];
    enc(v, &mut o);
    o
}
fn num(n: usize, o: &mut Vec<u8>) {
    o.extend((n as u32).to_le_bytes());
}
fn text(s: &[u8], o: &mut Vec<u8>) {
    num(s.len(), o);
    o.extend(s);
}
fn enc(v: &Val, o: &mut Vec<u8>) {
    match v {
        Val::Unit => o.push(0),
        Val::Bool(b) => o.extend([1, *b as u8]),
        Val::U64(x) => {
            o.push(2);
            o.extend(x.to_le_bytes());
        }
        Val::I64(x) => {
            o.push(3);
            o.extend(x.to_le_bytes());
        }
        Val::F32(x) => {
            o.push(4);
            o.extend(x.to_bits().to_le_bytes());
        }
        Val::F64(x) => {
            o.push(5);
            o.extend(x.to_bits().to_le_bytes());
        }
        Val::Str(s) => {
            o.push(6);
            text(s.as_bytes(), o);
        }
        Val::Bytes(s) => {
            o.push(7);
            text(s, o);
        }
        Val::None => o.push(8),
        Val::Some(v) => {
            o.push(9);
            enc(v, o);
        }
        Val::Seq(s) => {
            o.push(10);
            num(s.len(), o);
            s.iter().for_each(|x| enc(x, o));
        }
        Val::Map(s) => {
            o.push(11);
            num(s.len(), o);
            s.iter().for_each(|(k, x)| {
                enc(k, o);
                enc(x, o);
            });
        }
        Val::Struct(n, s) => {
            o.push(12);
            text(n.as_bytes(), o);
            num(s.len(), o);
            s.iter().for_each(|(k, x)| {
                text(k.as_bytes(), o);
                enc(x, o);
            });
        }
        Val::Newtype(n, v) => {
            o.push(13);
            text(n.as_bytes(), o);
            enc(v, o);
        }
        Val::UnitStruct(n) => {
            o.push(14);
            text(n.as_bytes(), o);
        }
    }
}

struct Dec<'a> {
    b: &'a [u8],
    i: usize,
    depth: u32,
}
fn intern(s: &str) -> &'static str {
    for k in ["Camera", "ExtrinsicParameters", "IntrinsicParametersPerspective", "PerspectiveParams"] {
        if s == k {
            return k;
        }
    }
    Box::leak(s.to_string().into_boxed_str())
}
impl Dec<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> {
        if n > self.b.len() - self.i {
            return Err("EOF in tree".into());
        }
        self.i += n;
        Ok(&self.b[self.i - n..self.i])
    }
    fn num(&mut self) -> Result<usize, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize)
    }
    fn w(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn text(&mut self) -> Result<String, String> {
        let n = self.num()?;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    fn val(&mut self) -> Result<Val, String> {
        self.depth += 1;
        if self.depth > 64 {
            return Err("too deep".into());
        }
        let t = self.take(1)?[0];
        let v = match t {
            0 => Val::Unit,
            1 => Val::Bool(self.take(1)?[0] != 0),
            2 => Val::U64(self.w()?),
            3 => Val::I64(self.w()? as i64),
            4 => Val::F32(f32::from_bits(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))),
            5 => Val::F64(f64::from_bits(self.w()?)),
            6 => Val::Str(self.text()?),
            7 => {
                let n = self.num()?;
                Val::Bytes(self.take(n)?.to_vec())
            }
            8 => Val::None,
            9 => Val::Some(Box::new(self.val()?)),
            10 => {
                let n = self.num()?;
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.val()?);
                }
                Val::Seq(v)
            }
            11 => {
                let n = self.num()?;
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.val()?;
                    v.push((k, self.val()?));
                }
                Val::Map(v)
            }
            12 => {
                let name = self.text()?;
                let n = self.num()?;
                let mut v = vec![];
                for _ in 0..n {
                    let k = self.text()?;
                    v.push((k, self.val()?));
                }
                Val::Struct(intern(&name), v)
            }
            13 => {
                let name = self.text()?;
                Val::Newtype(intern(&name), Box::new(self.val()?))
            }
            14 => {
                let name = self.text()?;
                Val::UnitStruct(intern(&name))
            }
            _ => return Err("bad tag".into()),
        };
        self.depth -= 1;
        Ok(v)
    }
}
pub fn decode(b: &[u8]) -> Result<Val, String> {
    let mut d = Dec { b, i: 0, depth: 0 };
    let v = d.val()?;
    if d.i != b.len() {
        return Err("trailing bytes".into());
    }
    Ok(v)
}

// ------------------------------------------------------------- presentation

/// How another program writes the same data.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Repr {
    /// 0: named, 1: positional, 2: alternating with the depth
    #[serde(default)]
    pub shape: u8,
    /// order of named fields (0: as declared)
    #[serde(default)]
    pub perm: u64,
    /// escaped letters in keys and odd spacing (0: none)
    #[serde(default)]
    pub style: u64,
    /// 0: shortest, 1: exponent, 2: seventeen and more digits, 3: whole numbers without a point
    #[serde(default)]
    pub digits: u8,
}

fn order(n: usize, perm: u64, depth: u32) -> Vec<usize> {
    let mut idx: Vec<usize> = (0..n).collect();
    if perm != 0 {
        let mut r = Rng::new(perm ^ depth as u64);
        for i in (1..n).rev() {
            idx.swap(i, r.usize(i + 1));
        }
    }
    idx
}

pub fn json(v: &Val, p: &Repr) -> String {
    let mut w = J { o: String::new(), p, r: Rng::new(p.style) };
    w.val(v, 0);
    w.o
}
struct J<'a> {
    o: String,
    p: &'a Repr,
    r: Rng,
}
impl J<'_> {
    fn sp(&mut self) {
        if self.p.style != 0 {
            for _ in 0..self.r.usize(3) {
                self.o.push([' ', '\n', '\t', '\r'][self.r.usize(4)]);
            }
        }
    }
    fn key(&mut self, k: &str) {
        self.o.push('"');
        for c in k.chars() {
            if (self.p.style != 0 && self.r.chance(0.1)) || c == '"' || c == '\\' || (c as u32) < 32 {
                self.o.push_str(&format!("\\u{:04x}", c as u32));
            } else {
                self.o.push(c);
            }
        }
        self.o.push('"');
    }
    fn num(&mut self, x: f64, short: String) {
        if !x.is_finite() {
            self.o.push_str("null");
            return;
        }
        let s = match self.p.digits {
            1 => format!("{x:e}"),
            2 => format!("{x:.24e}"),
            3 if x.fract() == 0.0 && x.abs() < 9e15 && !(x == 0.0 && x.is_sign_negative()) => format!("{}", x as i64),
            _ => short,
        };
        self.o.push_str(&s);
    }
    fn list(&mut self, it: &[&Val], depth: u32) {
        self.o.push('[');
        for (i, x) in it.iter().enumerate() {
            if i > 0 {
                self.o.push(',');
            }
            self.sp();
            self.val(x, depth + 1);
            self.sp();
        }
        self.o.push(']');
    }
    fn val(&mut self, v: &Val, depth: u32) {
        match v {
            Val::Unit | Val::UnitStruct(_) | Val::None => self.o.push_str("null"),
            Val::Bool(b) => self.o.push_str(if *b { "true" } else { "false" }),
            Val::U64(x) => self.o.push_str(&x.to_string()),
            Val::I64(x) => self.o.push_str(&x.to_string()),
            Val::F32(x) => {
                // the shortest text of a single-precision number has fewer digits
                let s = match self.p.digits {
                    1 => format!("{x:e}"),
                    _ => format!("{x:?}"),
                };
                if self.p.digits >= 2 || !x.is_finite() {
                    self.num(*x as f64, s);
                } else {
                    self.o.push_str(&s);
                }
            }
            Val::F64(x) => self.num(*x, format!("{x:?}")),
            Val::Str(s) => self.key(s),
            Val::Bytes(b) => {
                let v: Vec<Val> = b.iter().map(|x| Val::U64(*x as u64)).collect();
                self.list(&v.iter().collect::<Vec<_>>(), depth);
            }
            Val::Some(v) | Val::Newtype(_, v) => self.val(v, depth),
            Val::Seq(s) => self.list(&s.iter().collect::<Vec<_>>(), depth),
            Val::Map(m) => {
                self.o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        self.o.push(',');
                    }
                    match k {
                        Val::Str(s) => self.key(s),
                        _ => self.o.push_str("\"?\""),
                    }
                    self.o.push(':');
                    self.val(x, depth + 1);
                }
                self.o.push('}');
            }
            Val::Struct(_, f) => {
                if self.p.shape == 1 || (self.p.shape == 2 && depth % 2 == 1) {
                    return self.list(&f.iter().map(|x| &x.1).collect::<Vec<_>>(), depth);
                }
                self.o.push('{');
                for (n, i) in order(f.len(), self.p.perm, depth).into_iter().enumerate() {
                    if n > 0 {
                        self.o.push(',');
                    }
                    self.sp();
                    self.key(&f[i].0);
                    self.sp();
                    self.o.push(':');
                    self.sp();
                    self.val(&f[i].1, depth + 1);
                    self.sp();
                }
                self.o.push('}');
            }
        }
    }
}

pub fn cbor(v: &Val, p: &Repr) -> Vec<u8> {
    use ciborium::value::Value as C;
    fn go(v: &Val, p: &Repr, d: u32) -> C {
        match v {
            Val::Unit | Val::UnitStruct(_) | Val::None => C::Null,
            Val::Bool(b) => C::Bool(*b),
            Val::U64(x) => C::Integer((*x).into()),
            Val::I64(x) => C::Integer((*x).into()),
            Val::F32(x) => C::Float(*x as f64),
            Val::F64(x) => C::Float(*x),
            Val::Str(s) => C::Text(s.clone()),
            Val::Bytes(s) => C::Bytes(s.clone()),
            Val::Some(v) | Val::Newtype(_, v) => go(v, p, d),
            Val::Seq(s) => C::Array(s.iter().map(|x| go(x, p, d + 1)).collect()),
            Val::Map(m) => C::Map(m.iter().map(|(k, x)| (go(k, p, d + 1), go(x, p, d + 1))).collect()),
            Val::Struct(_, f) => C::Map(
                order(f.len(), p.perm, d).into_iter().map(|i| (C::Text(f[i].0.clone()), go(&f[i].1, p, d + 1))).collect(),
            ),
        }
    }
    let mut o = vec![];
    ciborium::into_writer(&go(v, p, 0), &mut o).expect("writing to memory");
    o
}

/// Readable text of RON.
pub fn ron(v: &Val, p: &Repr) -> String {
    fn go(v: &Val, p: &Repr, d: u32, o: &mut String) {
        match v {
            Val::Unit | Val::None => o.push_str("()"),
            Val::UnitStruct(n) => o.push_str(n),
            Val::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            Val::U64(x) => o.push_str(&x.to_string()),
            Val::I64(x) => o.push_str(&x.to_string()),
            Val::F32(x) => flt(format!("{x:?}"), o),
            Val::F64(x) => flt(format!("{x:?}"), o),
            Val::Str(s) => o.push_str(&format!("{s:?}")),
            Val::Bytes(_) => o.push_str("[]"),
            Val::Some(v) | Val::Newtype(_, v) => go(v, p, d, o),
            Val::Seq(s) => {
                // lists of numbers may be tuples or lists; which one the type wants is not known
                o.push('(');
                for x in s {
                    go(x, p, d + 1, o);
                    o.push(',');
                }
                o.push(')');
            }
            Val::Map(_) => o.push_str("{}"),
            Val::Struct(n, f) => {
                if p.style & 1 == 1 {
                    o.push_str(n);
                }
                o.push('(');
                for i in order(f.len(), p.perm, d) {
                    o.push_str(&f[i].0);
                    o.push(':');
                    go(&f[i].1, p, d + 1, o);
                    o.push(',');
                }
                o.push(')');
            }
        }
    }
    fn flt(s: String, o: &mut String) {
        o.push_str(match s.as_str() {
            "NaN" => "NaN",
            "inf" => "inf",
            "-inf" => "-inf",
            x => x,
        });
    }
    let mut o = String::new();
    go(v, p, 0, &mut o);
    o
}

// ------------------------------------------------------------- damage

pub const FREE: u8 = 0;
pub const MUST: u8 = 1;
/// rejected if fields are looked up by name
pub const MUST_NAMED: u8 = 2;
/// rejected if fields are looked up by name and repeated names reach the loader
pub const MUST_TWICE: u8 = 3;
pub const HURTS: u64 = 16;

/// Damage the k-th place of the tree in the given way. Returns whether a loader has to reject the
/// result; None: there is no such place, or the damage does not apply to it.
pub fn hurt(v: &mut Val, k: u64, how: u8, r: u64) -> Option<u8> {
    let n = places(v);
    if n == 0 {
        return None;
    }
    let mut k = k % n;
    go(v, &mut k, how, r)
}
pub fn places(v: &Val) -> u64 {
    match v {
        Val::Struct(_, f) => f.iter().map(|x| 1 + places(&x.1)).sum(),
        Val::Seq(s) => s.iter().map(|x| 1 + places(x)).sum(),
        Val::Newtype(_, v) | Val::Some(v) => places(v),
        _ => 0,
    }
}
/// There is a number in it that JSON cannot spell.
pub fn unspeakable(v: &Val) -> bool {
    match v {
        Val::F32(x) => !x.is_finite(),
        Val::F64(x) => !x.is_finite(),
        Val::Newtype(_, v) | Val::Some(v) => unspeakable(v),
        Val::Seq(s) => s.iter().any(unspeakable),
        Val::Map(m) => m.iter().any(|x| unspeakable(&x.1)),
        Val::Struct(_, f) => f.iter().any(|x| unspeakable(&x.1)),
        _ => false,
    }
}
fn number(v: &Val) -> bool {
    matches!(v, Val::F32(_) | Val::F64(_))
}
fn edit(v: &mut Val, r: u64) -> bool {
    let mut g = Rng::new(r);
    let x = match g.usize(12) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => 0.0,
        4 => -0.0,
        5 => 1e300,
        6 => -1.0,
        7 => 5e-324,
        8 => 1.0,
        9 => f64::from_bits(r),
        _ => g.uni(-1000.0, 1000.0),
    };
    match v {
        Val::F64(y) => *y = x,
        Val::F32(y) => *y = x as f32,
        Val::U64(y) => *y = g.below(6),
        _ => return false,
    }
    true
}
/// Something that cannot be understood as what was there.
fn retype(v: &Val, r: u64) -> Val {
    let leaf = number(v) || matches!(v, Val::U64(_));
    match r % 6 {
        0 => Val::Str("x".into()),
        1 => Val::Bool(true),
        2 if leaf => Val::Seq(vec![]),
        3 if leaf => Val::Unit,
        4 if leaf => Val::Map(vec![]),
        2 | 3 => Val::F64(1.0),
        _ => Val::Str(String::new()),
    }
}
fn go(v: &mut Val, k: &mut u64, how: u8, r: u64) -> Option<u8> {
    match v {
        Val::Struct(_, f) => {
            for i in 0..f.len() {
                let param = f[i].0 != "coords" || !matches!(f[i].1, Val::Unit | Val::UnitStruct(_));
                let must = if param { MUST } else { FREE };
                if *k == 0 {
                    return Some(match how {
                        0 | 8 => {
                            f.remove(i);
                            must
                        }
                        1 => {
                            let x = f[i].clone();
                            f.push(x);
                            must * MUST_TWICE
                        }
                        2 => {
                            let x = f[i].clone();
                            f.insert(i, x);
                            must * MUST_TWICE
                        }
                        3 => {
                            // repeated with another value
                            let mut x = f[i].clone();
                            if !edit(&mut x.1, r) {
                                let j = r as usize % f.len();
                                x.1 = f[j].1.clone();
                            }
                            f.push(x);
                            must * MUST_TWICE
                        }
                        4 | 9 => {
                            f[i].1 = retype(&f[i].1, r);
                            must
                        }
                        5 => {
                            f[i].0.push('_');
                            must * MUST_NAMED
                        }
                        6 => {
                            f[i].0 = f[i].0.to_uppercase();
                            must * MUST_NAMED
                        }
                        7 => {
                            f[i].0.pop();
                            must * MUST_NAMED
                        }
                        10 => {
                            let j = r as usize % f.len();
                            let (a, b) = (f[i].1.clone(), f[j].1.clone());
                            f[i].1 = b;
                            f[j].1 = a;
                            FREE
                        }
                        11 => {
                            // one name twice, another one missing
                            if f.len() < 2 {
                                return None;
                            }
                            let j = (i + 1 + r as usize % (f.len() - 1)) % f.len();
                            if f[j].0 == "coords" || !param {
                                return None;
                            }
                            f[j].0 = f[i].0.clone();
                            MUST_NAMED
                        }
                        12 => {
                            f.insert(i, ("extra".into(), Val::F64(1.0)));
                            FREE
                        }
                        13 => {
                            // everything from here on is missing
                            let lost = f[i..].iter().any(|x| x.0 != "coords");
                            f.truncate(i);
                            if lost {
                                MUST
                            } else {
                                FREE
                            }
                        }
                        _ => {
                            if !edit(&mut f[i].1, r) {
                                return None;
                            }
                            FREE
                        }
                    });
                }
                *k -= 1;
                if let Some(x) = go(&mut f[i].1, k, how, r) {
                    return Some(x);
                }
            }
            None
        }
        Val::Seq(s) => {
            for i in 0..s.len() {
                if *k == 0 {
                    let unit = matches!(s[i], Val::Unit);
                    return Some(match how {
                        0 | 5..=8 => {
                            s.remove(i);
                            if unit {
                                FREE
                            } else {
                                MUST
                            }
                        }
                        1..=3 => {
                            let x = s[i].clone();
                            s.insert(i, x);
                            FREE
                        }
                        4 | 9 => {
                            if unit {
                                return None;
                            }
                            s[i] = retype(&s[i], r);
                            MUST
                        }
                        10 | 11 => {
                            let j = r as usize % s.len();
                            s.swap(i, j);
                            FREE
                        }
                        12 => {
                            s.push(Val::F64(1.0));
                            FREE
                        }
                        13 => {
                            let lost = s[i..].iter().any(|x| !matches!(x, Val::Unit));
                            s.truncate(i);
                            if lost {
                                MUST
                            } else {
                                FREE
                            }
                        }
                        _ => {
                            if !edit(&mut s[i], r) {
                                return None;
                            }
                            FREE
                        }
                    });
                }
                *k -= 1;
                if let Some(x) = go(&mut s[i], k, how, r) {
                    return Some(x);
                }
            }
            None
        }
        Val::Newtype(_, v) | Val::Some(v) => go(v, k, how, r),
        _ => None,
    }
}
