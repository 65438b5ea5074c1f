//! Runs programs that save and load through the simulated disk, with faults, crashes, restarts,
//! damage and version changes (C05-C08).
use crate::plan::*;
use crate::runner::{silence, Runner};
use camsd::disk::{self, Head, Io, Medium};
use camsd::obj::{Fam, Fmt, Obj, Wrap};
use camsd::spec::*;
use camsd::val::{self, Repr};
use serde::{Deserialize, Serialize};
use simcodec::Pres;
use simcore::engine::rec;
use simcore::proc::{child, Exit};
use simcore::rng::{mix, Rng};
use simcore::shared::{ctr, fk, Rec};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// How the simulator's own format presents the data.
#[derive(Clone, Copy, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct PresJ {
    pub shape: u8,
    pub key: u8,
    pub perm: u64,
    pub hint: u8,
    pub machine: bool,
    pub widen: bool,
}
impl PresJ {
    fn pres(&self) -> Pres {
        Pres { shape: self.shape, key: self.key, perm: self.perm, hint: self.hint, human: !self.machine, widen: self.widen }
    }
    /// presentations that formats in use really have
    fn usual(&self) -> bool {
        self.key < 2 && self.hint < 2
    }
}

/// What happens to stored bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Hurt {
    /// only this many thousandths of the bytes remain, minus `.1` bytes
    Cut(u16, u16),
    /// flip bits
    Flip(u64, u8),
    /// set a range to zero / 0xff / noise
    Wipe(u64, u8),
    /// a range is repeated
    Repeat(u64),
    /// a range is lost
    Lose(u64),
    /// the rest comes from another file
    Splice(u64, usize),
    /// change a digit or letter to another one
    Char(u64),
    /// trailing garbage
    Append(u64),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Step {
    Save {
        obj: usize,
        #[serde(default)]
        old: bool,
        fam: Fam,
        #[serde(default)]
        var: u8,
        wrap: Wrap,
        slot: usize,
        #[serde(default)]
        io: Io,
        /// written by another program from the same data
        #[serde(default, skip_serializing_if = "Option::is_none")]
        repr: Option<Repr>,
        /// structural damage: place, kind, argument
        #[serde(default, skip_serializing_if = "Option::is_none")]
        hurt: Option<(u64, u8, u64)>,
    },
    Load {
        slot: usize,
        #[serde(default)]
        old: bool,
        #[serde(default)]
        var: u8,
        #[serde(default)]
        pres: PresJ,
        #[serde(default)]
        io: Io,
    },
    /// load, then save what was loaded
    Resave {
        slot: usize,
        #[serde(default)]
        old: bool,
        #[serde(default)]
        pres: PresJ,
        to: usize,
        fam: Fam,
        #[serde(default)]
        var: u8,
        #[serde(default)]
        wrap: bool,
    },
    Hurt {
        slot: usize,
        hurt: Hurt,
    },
    Restart,
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Disk {
    pub objs: Vec<ObjSpec>,
    pub steps: Vec<Step>,
}

// ------------------------------------------------------------- inside the simulated process

const E_RESTORED: u32 = 1;
const E_LOAD_FAILED: u32 = 2;
const E_LOAD_PANIC: u32 = 3;
const E_SWALLOWED: u32 = 4;
const E_INCOMPLETE: u32 = 5;
const E_ACCEPTED: u32 = 6;
const E_HALF: u32 = 7;
const E_INCOMPATIBLE: u32 = 8;
const E_SAVE_FAILED: u32 = 9;
const E_SAVE_PANIC: u32 = 10;
const E_MISREAD: u32 = 11;

fn class(k: u32) -> &'static str {
    match k {
        E_RESTORED => "RESTORED_DIFFERENT",
        E_LOAD_FAILED => "LOAD_FAILED",
        E_LOAD_PANIC => "LOAD_PANIC",
        E_SWALLOWED => "FAILURE_SWALLOWED",
        E_INCOMPLETE => "INCOMPLETE_SAVE_REPORTED_AS_SUCCESS",
        E_ACCEPTED => "DAMAGED_DATA_ACCEPTED",
        E_HALF => "HALF_LOADED",
        E_INCOMPATIBLE => "INCOMPATIBLE",
        E_SAVE_FAILED => "SAVE_FAILED",
        E_SAVE_PANIC => "SAVE_PANIC",
        E_MISREAD => "DAMAGED_DATA_MISREAD",
        _ => "?",
    }
}

fn bad(step: usize, k: u32, what: String) {
    let r = rec();
    if r.nfail == 0 {
        r.set_note(&what);
    }
    r.fail(fk::ASSERT, k, 0, step as u32, [0; 6], None);
}

fn fold(w: u64) {
    rec().fold(w);
}
fn fold_all(v: &[u64]) {
    fold(v.iter().fold(v.len() as u64, |h, x| mix(h ^ *x)));
}

const WRAPS: [Wrap; 5] = [Wrap::Plain, Wrap::List, Wrap::Tagged, Wrap::Flat, Wrap::Untagged];
fn wrap_no(w: Wrap) -> u8 {
    WRAPS.iter().position(|x| *x == w).unwrap() as u8
}
fn fam_no(f: Fam) -> u8 {
    camsd::obj::FAMS.iter().position(|x| *x == f).unwrap() as u8
}

/// The bytes another program would write, and whether a loader must reject them.
fn alternative(o: &dyn Obj, fam: Fam, repr: &Option<Repr>, hurt: &Option<(u64, u8, u64)>) -> Option<(Vec<u8>, u8)> {
    let p = repr.clone().unwrap_or_default();
    let mut t = o.tree();
    let mut must = val::FREE;
    if let Some((k, how, r)) = hurt {
        must = val::hurt(&mut t, *k, *how, *r)?;
        rec().ctr[ctr::CORRUPT] += 1;
    }
    Some(match fam {
        Fam::Json => {
            if must >= val::MUST_NAMED && p.shape != 0 {
                must = val::FREE;
            }
            (val::json(&t, &p).into_bytes(), must)
        }
        Fam::Cbor => (val::cbor(&t, &p), must),
        _ => (val::encode(&t), must),
    })
}

fn save_bytes(o: &dyn Obj, f: &Fmt) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    let mut s = false;
    let f = Fmt { event: u64::MAX, ..f.clone() };
    o.save(&f, &mut v, &mut s)?;
    Ok(v)
}

/// Save through a medium. (result, fault struck)
fn transfer(o: &dyn Obj, f: &Fmt, m: &mut Medium, buf: bool, direct: Option<&[u8]>) -> (Result<(), String>, bool) {
    let mut struck = false;
    let r = {
        let mut go = |w: &mut dyn Write| match direct {
            Some(b) => w.write_all(b).map_err(|e| e.to_string()),
            None => o.save(f, w, &mut struck),
        };
        if buf {
            let mut b = std::io::BufWriter::with_capacity(64, &mut *m);
            let r = go(&mut b).and_then(|_| b.flush().map_err(|e| e.to_string()));
            // what is still buffered is lost, not written late
            let _ = b.into_parts();
            r
        } else {
            go(m)
        }
    };
    let fired = m.fired || struck;
    (r, fired)
}

/// A message of the frozen release that says what is wrong with the data themselves.
fn lacking(e: &str) -> Option<&'static str> {
    if e.contains("coords") {
        return None;
    }
    if e.contains("missing field") {
        Some("lack a parameter")
    } else if e.contains("duplicate field") {
        Some("repeat a parameter")
    } else if e.contains("EOF while parsing") {
        Some("end early")
    } else {
        None
    }
}

struct Proc<'a> {
    p: &'a Disk,
}

impl Proc<'_> {
    fn obj(&self, k: usize, old: bool) -> Box<dyn Obj> {
        camsd::build(&self.p.objs[k], old)
    }

    #[allow(clippy::too_many_arguments)]
    fn save(
        &self,
        n: usize,
        o: &dyn Obj,
        f: &Fmt,
        h0: Head,
        slot: usize,
        io: &Io,
        repr: &Option<Repr>,
        hurt: &Option<(u64, u8, u64)>,
    ) {
        let mut must = val::FREE;
        let mut direct = None;
        if repr.is_some() || hurt.is_some() {
            match alternative(o, f.fam, repr, hurt) {
                Some((b, m)) => {
                    must = m;
                    direct = Some(b);
                }
                None => return,
            }
        }
        // until it is complete, the file is not
        let old = disk::head(slot);
        let over = io.inplace && old.len > 0;
        let part = if over { val::FREE } else { val::MUST };
        disk::set_head(slot, Head { state: 2, must: part, len: if over { old.len } else { 0 }, ..h0 });
        let mut m = Medium::writer(slot, io);
        let r = catch_unwind(AssertUnwindSafe(|| transfer(o, f, &mut m, io.buf, direct.as_deref())));
        let (r, fired) = match r {
            Ok(x) => x,
            Err(_) => {
                bad(n, E_SAVE_PANIC, format!("saving panicked: {}", o.text()));
                return;
            }
        };
        let done = m.written();
        rec().ctr[if r.is_ok() { ctr::SAVES_OK } else { ctr::SAVES_ERR }] += 1;
        fold(done as u64 ^ (r.is_ok() as u64) << 40 ^ (fired as u64) << 41);
        let want = match &direct {
            Some(b) => Ok(b.clone()),
            None => catch_unwind(AssertUnwindSafe(|| save_bytes(o, f))).unwrap_or_else(|_| Err("panic".into())),
        };
        if r.is_ok() && fired {
            return bad(n, E_SWALLOWED, format!("saving reported success although the medium failed; {}", o.text()));
        }
        match (&r, &want) {
            (Ok(()), Ok(w)) => {
                let got = disk::bytes(slot);
                if got.len() < done || &got[..done] != w.as_slice() {
                    return bad(
                        n,
                        E_INCOMPLETE,
                        format!("saving reported success after {} of {} bytes or with other bytes than an undisturbed save; {}", done, w.len(), o.text()),
                    );
                }
                let mut h = disk::head(slot);
                if f.fam == Fam::Json && val::unspeakable(&o.tree()) {
                    // JSON has no such numbers; the writer puts null in their place
                    h.state = 2;
                    h.must = val::FREE;
                } else if over && old.len as usize > done {
                    // the tail of the former contents is still there
                    h.state = 2;
                    h.must = val::FREE;
                } else {
                    h.state = if hurt.is_some() { 2 } else { 1 };
                    h.must = must;
                }
                disk::set_head(slot, h);
            }
            (Err(e), Ok(_)) if !fired => {
                bad(n, E_SAVE_FAILED, format!("saving failed without a fault ({e}); {}", o.text()));
            }
            (Ok(()), Err(e)) => bad(n, E_SAVE_FAILED, format!("saving fails ({e}); {}", o.text())),
            (Err(e), Err(_)) if !fired => bad(n, E_SAVE_FAILED, format!("saving failed without a fault ({e}); {}", o.text())),
            _ => {}
        }
    }

    /// Load and judge. The object, if it is the right one.
    fn load(&self, n: usize, slot: usize, old: bool, var: u8, pres: &PresJ, io: &Io) -> Option<Box<dyn Obj>> {
        let h = disk::head(slot);
        if h.state == 0 {
            return None;
        }
        let s = &self.p.objs[h.obj as usize];
        let mut f = Fmt::new(camsd::obj::FAMS[h.fam as usize], var, WRAPS[h.wrap as usize], io);
        f.pres = pres.pres();
        let mut m = Medium::reader(slot, io);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if io.buf {
                camsd::load(s.kind, s.single, old, &f, &mut std::io::BufReader::with_capacity(32, &mut m))
            } else {
                camsd::load(s.kind, s.single, old, &f, &mut m)
            }
        }));
        let who = if old { "release 0.15.3" } else { "the working tree" };
        let what = |x: &str| format!("{x}; {:?} {} as {:?} variant {var} {pres:?}, loaded by {who}", s.kind, if s.single { "f32" } else { "f64" }, f.fam);
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                rec().ctr[ctr::LOADS_ERR] += 1;
                bad(n, E_LOAD_PANIC, what("loading panicked"));
                return None;
            }
        };
        rec().ctr[if r.is_ok() { ctr::LOADS_OK } else { ctr::LOADS_ERR }] += 1;
        fold(slot as u64 ^ (r.is_ok() as u64) << 40 ^ (m.fired as u64) << 41);
        if let Err(e) = &r {
            if e == "\0swallowed" {
                bad(n, E_SWALLOWED, what("loading reported success although the format failed underneath"));
                return None;
            }
        }
        // an injected end of file is only a fault if something was still to come
        if m.fired && r.is_ok() {
            bad(n, E_SWALLOWED, what("loading reported success although the medium failed"));
            return None;
        }
        let disturbed = m.fired || io.event.is_some();
        let cross = h.side != old as u8 || h.origin != old as u8;
        if h.state == 1 {
            return match r {
                Err(e) => {
                    if !disturbed && (f.fam != Fam::Tree || pres.usual()) {
                        let k = if cross { E_INCOMPATIBLE } else { E_LOAD_FAILED };
                        bad(n, k, what(&format!("completely saved data are not loaded: {e}")));
                    }
                    None
                }
                Ok(o) => {
                    let orig = self.obj(h.obj as usize, h.origin != 0);
                    let p = o.params();
                    fold_all(&p);
                    let k = if cross { E_INCOMPATIBLE } else { E_RESTORED };
                    if p != orig.params() {
                        bad(n, k, what(&format!("parameters differ: saved {}, loaded {}", orig.text(), o.text())));
                        return None;
                    }
                    let pr = o.probe();
                    fold_all(&pr);
                    let fresh = if cross { o.rebuilt() } else { Some(orig) };
                    if let Some(x) = fresh {
                        if pr != x.probe() {
                            bad(n, k, what(&format!("answers differ from those of {}: loaded {}", x.text(), o.text())));
                            return None;
                        }
                        // (an object with invalid numbers is not equal to itself)
                        if x.same(&*x) && !o.same(&*x) {
                            bad(n, k, what(&format!("not equal: saved {}, loaded {}", x.text(), o.text())));
                            return None;
                        }
                    }
                    Some(o)
                }
            };
        }
        // damaged
        let Ok(o) = r else { return None };
        let named = f.fam != Fam::Tree || pres.shape == 0;
        let must = match h.must {
            val::FREE => false,
            val::MUST => true,
            val::MUST_NAMED => named,
            // (a generic JSON value keeps the last of several equal keys)
            _ => named && !(f.fam == Fam::Json && f.var == 2),
        };
        let p = o.params();
        let pr = o.probe();
        fold_all(&p);
        fold_all(&pr);
        if must {
            bad(n, E_ACCEPTED, what(&format!("data that end early, lack or repeat a parameter were accepted as {}", o.text())));
            return None;
        }
        if let Some(x) = o.rebuilt() {
            if x.params() != p || x.probe() != pr {
                bad(n, E_HALF, what(&format!("loaded {} answers differently from an object built from its own parameters, {}", o.text(), x.text())));
                return None;
            }
        }
        if !old && !disturbed {
            let mut m = Medium::reader(slot, &Io::default());
            let f = Fmt { event: u64::MAX, ..f };
            let r = catch_unwind(AssertUnwindSafe(|| camsd::load(s.kind, s.single, true, &f, &mut m)));
            match r {
                Ok(Ok(q)) => {
                    if q.params() != p {
                        bad(n, E_MISREAD, what(&format!("the data spell {}, loaded {}", q.text(), o.text())));
                    }
                }
                Ok(Err(e)) => {
                    if let Some(l) = lacking(&e) {
                        bad(n, E_ACCEPTED, what(&format!("data that {l} ({e}) were accepted as {}", o.text())));
                    }
                }
                Err(_) => {}
            }
        }
        None
    }

    fn step(&self, n: usize) {
        match &self.p.steps[n] {
            Step::Save { obj, old, fam, var, wrap, slot, io, repr, hurt } => {
                let o = self.obj(*obj, *old);
                let wrap = if repr.is_some() || hurt.is_some() { Wrap::Plain } else { *wrap };
                let f = Fmt::new(*fam, *var, wrap, io);
                let h = Head {
                    obj: *obj as u32,
                    fam: fam_no(*fam),
                    wrap: wrap_no(wrap),
                    side: *old as u8,
                    origin: *old as u8,
                    ..Default::default()
                };
                self.save(n, &*o, &f, h, *slot, io, repr, hurt);
            }
            Step::Load { slot, old, var, pres, io } => {
                self.load(n, *slot, *old, *var, pres, io);
            }
            Step::Resave { slot, old, pres, to, fam, var, wrap } => {
                let h0 = disk::head(*slot);
                if let Some(o) = self.load(n, *slot, *old, 0, pres, &Io::default()) {
                    let w = if *wrap { WRAPS[h0.wrap as usize] } else { Wrap::Plain };
                    let f = Fmt::new(*fam, *var, w, &Io::default());
                    let h = Head {
                        obj: h0.obj,
                        fam: fam_no(*fam),
                        wrap: wrap_no(w),
                        side: *old as u8,
                        origin: h0.origin,
                        ..Default::default()
                    };
                    self.save(n, &*o, &f, h, *to, &Io::default(), &None, &None);
                }
            }
            Step::Hurt { slot, hurt } => damage(*slot, hurt),
            Step::Restart => {}
        }
    }
}

fn damage(slot: usize, hurt: &Hurt) {
    let mut h = disk::head(slot);
    if h.state == 0 {
        return;
    }
    let before = disk::bytes(slot);
    let mut b = before.clone();
    let n = b.len();
    if n == 0 {
        return;
    }
    let mut must = if h.state == 2 { h.must } else { val::FREE };
    match hurt {
        Hurt::Cut(t, k) => {
            let m = (n * *t as usize / 1000).saturating_sub(*k as usize);
            b.truncate(m);
            if m < n {
                must = if h.state == 1 { val::MUST } else { val::FREE };
            }
        }
        Hurt::Flip(s, c) => {
            let mut r = Rng::new(*s);
            for _ in 0..(*c).max(1) {
                b[r.usize(n)] ^= 1 << r.usize(8);
            }
        }
        Hurt::Wipe(s, x) => {
            let mut r = Rng::new(*s);
            let a = r.usize(n);
            let most = [1, 8, 64, n][r.usize(4)].max(1);
            let e = (a + 1 + r.usize(most)).min(n);
            for y in &mut b[a..e] {
                *y = match x {
                    0 => 0,
                    1 => 0xff,
                    _ => r.next() as u8,
                };
            }
        }
        Hurt::Repeat(s) => {
            let mut r = Rng::new(*s);
            let a = r.usize(n);
            let e = (a + 1 + r.usize(n - a)).min(n);
            let x = b[a..e].to_vec();
            let at = if r.chance(0.5) { e } else { r.usize(n) };
            b.splice(at..at, x);
        }
        Hurt::Lose(s) => {
            let mut r = Rng::new(*s);
            let a = r.usize(n);
            let most = [1, 4, 16, n][r.usize(4)].max(1);
            let e = (a + 1 + r.usize(most)).min(n);
            b.drain(a..e);
        }
        Hurt::Splice(s, other) => {
            let o = disk::bytes(*other);
            let mut r = Rng::new(*s);
            let a = r.usize(n);
            let c = if r.chance(0.6) { a.min(o.len()) } else { r.usize(o.len() + 1) };
            b.truncate(a);
            b.extend_from_slice(&o[c..]);
        }
        Hurt::Char(s) => {
            let mut r = Rng::new(*s);
            const C: &[u8] = b"0123456789eE+-.,:[]{}\"abcdfqrtuxysnNI ";
            let v: Vec<usize> = (0..n).filter(|&i| b[i].is_ascii_graphic()).collect();
            if !v.is_empty() {
                b[*r.pick(&v)] = *r.pick(C);
            }
        }
        Hurt::Append(s) => {
            let mut r = Rng::new(*s);
            for _ in 0..1 + r.usize(16) {
                b.push(r.next() as u8);
            }
        }
    }
    if b == before {
        return;
    }
    if !matches!(hurt, Hurt::Cut(..)) {
        must = val::FREE;
    }
    rec().ctr[ctr::CORRUPT] += 1;
    disk::put(slot, &b);
    h = Head { state: 2, must, len: disk::head(slot).len, ..h };
    disk::set_head(slot, h);
    fold(b.iter().fold(1, |x, y| mix(x ^ *y as u64)));
}

// ------------------------------------------------------------- outside

impl Runner {
    pub fn disk(&mut self, p: &Disk) -> Outcome {
        let mut o = Outcome { ctr: vec![0; simcore::shared::NCTR], ..Default::default() };
        let rec: &mut Rec = unsafe { &mut *self.rec };
        disk::format(&mut rec.disk);
        let mut i = 0;
        let mut digest = 1u64;
        let mut procs = 0u64;
        while i < p.steps.len() {
            let from = i;
            let to = (i..p.steps.len()).find(|&k| p.steps[k] == Step::Restart).unwrap_or(p.steps.len());
            let ex = child(self.rec, 6, 0, || {
                silence();
                let pr = Proc { p };
                for n in from..to {
                    simcore::engine::rec().cur_op[0] = n as u32 + 1;
                    pr.step(n);
                    if simcore::engine::rec().nfail > 0 {
                        break;
                    }
                }
            });
            procs += 1;
            let rec = self.rec();
            for (a, b) in o.ctr.iter_mut().zip(&rec.ctr) {
                *a += b;
            }
            digest = mix(digest ^ rec.digest);
            let at = rec.cur_op[0].max(1) as usize - 1;
            o.trace.push(format!("process {procs}: steps {from}..{}", if ex == Exit::Ok { to } else { at + 1 }));
            if rec.nfail > 0 {
                let f = &rec.fails[0];
                o.viol = Some(Viol { class: class(f.aux).into(), what: format!("step {}: {}", f.op, rec.note()) });
                break;
            }
            match ex {
                Exit::Ok => {
                    i = to + 1;
                    if i < p.steps.len() {
                        o.ctr[ctr::RESTART] += 1;
                    }
                }
                Exit::Code(c) if c == disk::CRASHED => {
                    digest = mix(digest ^ 0xC0A5);
                    o.ctr[ctr::RESTART] += 1;
                    i = at + 1;
                }
                Exit::Code(c) => {
                    o.harness_error = Some(format!("child exited with {c}"));
                    break;
                }
                Exit::Signal(s) => {
                    o.viol = Some(Viol { class: "CRASH".into(), what: format!("the process died of signal {s} in step {at}: {:?}", p.steps[at]) });
                    break;
                }
                Exit::Hang | Exit::Slow => {
                    o.viol = Some(Viol { class: "HANG".into(), what: format!("step {at} does not end: {:?}", p.steps[at]) });
                    break;
                }
            }
        }
        o.calls = o.ctr[ctr::LOADS_OK] + o.ctr[ctr::LOADS_ERR] + o.ctr[ctr::SAVES_OK] + o.ctr[ctr::SAVES_ERR];
        o.ctr[ctr::CALLS] += o.calls;
        o.digest = digest;
        o.extra.insert("simulated_processes".into(), procs);
        o
    }
}

// ------------------------------------------------------------- generation

fn finite(r: &mut Rng, hard: bool) -> f64 {
    let x = match r.usize(if hard { 18 } else { 8 }) {
        0 => 0.0,
        1 => r.range(-20, 1000) as f64,
        2 => 1.0,
        3 => r.uni(-1.0, 1.0),
        4 => 0.1 * r.range(-50, 50) as f64,
        8 => -0.0,
        9 => r.uni(-1.0, 1.0) * 1e30,
        10 => r.uni(-1.0, 1.0) * 1e-30,
        11 => f64::from_bits((r.next() & !(0x7ff << 52)) | (r.range(1023 - 120, 1023 + 120) as u64) << 52),
        12 => f64::from_bits(r.uni(500.0, 501.0).to_bits() ^ (r.next() & 7)),
        13 => 1e-40,
        // the ends of what a number can be
        14 => *r.pick(&[5e-324, -5e-324, 2.2250738585072014e-308, 1.1e-308, f64::MAX, f64::MIN, 3.4028234663852886e38, 1.1754943508222875e-38, 1e-45]),
        15 => *r.pick(&[9007199254740992.0, 9007199254740993.0, 4294967295.0, 2147483648.0, -2147483649.0, 16777217.0, 1e15, 1e16, 1e17, 1e21, 255.0, 65536.0]),
        16 => f64::from_bits(r.next()),
        17 => r.range(-10, 2000) as f64 + *r.pick(&[1e-9, -1e-9, 1e-12, 1e-6, 0.5]),
        _ => r.uni(-1000.0, 1000.0),
    };
    if x.is_finite() {
        x
    } else {
        1.5
    }
}

pub fn object(r: &mut Rng, kind: Kind) -> ObjSpec {
    let hard = r.chance(0.4);
    let mut f = || F(finite(r, hard));
    let mut lens = [f(), f(), f(), f(), f()];
    let cen = [f(), f(), f()];
    let mut quat = [F(r.uni(-1.0, 1.0)), F(r.uni(-1.0, 1.0)), F(r.uni(-1.0, 1.0)), F(r.uni(-1.0, 1.0))];
    if r.chance(0.2) {
        quat = [F(1.0), F(0.0), F(0.0), F(0.0)];
    } else if r.chance(0.2) {
        quat[r.usize(4)] = F(0.0);
        quat[r.usize(4)] = F(1.0);
    }
    if r.chance(0.7) {
        // a usable lens
        for l in &mut lens[..2] {
            if l.0.abs() < 1e-3 {
                *l = F(r.uni(50.0, 2000.0));
            }
        }
    }
    let n = match r.usize(6) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => 1 + r.usize(12),
        _ => 1 + r.usize(60),
    };
    let px = (0..n).map(|_| [F(r.uni(-100.0, 2000.0)), F(r.uni(-100.0, 2000.0))]).collect();
    ObjSpec { kind, single: r.chance(0.35), lens, quat, cen, px }
}

fn kind(r: &mut Rng) -> Kind {
    // the hand-written loaders most often
    KINDS[r.weighted(&[14, 8, 12, 10, 5, 4, 3, 4, 3, 5, 4, 5, 1, 1])]
}

fn objects(r: &mut Rng) -> Vec<ObjSpec> {
    let n = 1 + r.usize(4);
    let mut v: Vec<ObjSpec> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(0.4) {
            // nearly the same as an earlier one
            let k = r.usize(v.len());
            let mut o = v[k].clone();
            match r.usize(4) {
                0 => {
                    let k = r.usize(5);
                    o.lens[k] = F(finite(r, false));
                }
                1 => {
                    let k = r.usize(3);
                    o.cen[k] = F(finite(r, false));
                }
                2 => o.single = !o.single,
                _ => o.quat.swap(0, 1),
            }
            v.push(o);
        } else {
            let k = kind(r);
            v.push(object(r, k));
        }
    }
    v
}

fn fam(r: &mut Rng) -> Fam {
    [Fam::Json, Fam::Bin, Fam::BinVar, Fam::Cbor, Fam::Ron, Fam::Tree][r.weighted(&[10, 5, 3, 4, 3, 9])]
}
fn wrap(r: &mut Rng) -> Wrap {
    WRAPS[r.weighted(&[12, 2, 2, 2, 2])]
}
fn pres(r: &mut Rng, wild: bool) -> PresJ {
    PresJ {
        shape: r.weighted(&[5, 3, 2]) as u8,
        key: if wild { r.usize(5) as u8 } else { r.usize(2) as u8 },
        perm: if r.chance(0.6) { r.below(1 << 16) } else { 0 },
        hint: if wild && r.chance(0.2) { 2 } else { r.usize(2) as u8 },
        machine: r.chance(0.5),
        widen: r.chance(0.3),
    }
}
fn soft(r: &mut Rng) -> Io {
    Io { split: if r.chance(0.6) { 1 + r.below(1 << 20) } else { 0 }, buf: r.chance(0.3), ..Default::default() }
}
fn repr(r: &mut Rng, f: Fam) -> Option<Repr> {
    if !matches!(f, Fam::Json | Fam::Cbor) || r.chance(0.5) {
        return None;
    }
    Some(Repr {
        shape: r.weighted(&[4, 3, 2]) as u8,
        perm: if r.chance(0.7) { 1 + r.below(1 << 16) } else { 0 },
        style: if r.chance(0.5) { 1 + r.below(1 << 16) } else { 0 },
        digits: r.usize(4) as u8,
    })
}
fn save(r: &mut Rng, obj: usize, slot: usize) -> Step {
    let f = fam(r);
    Step::Save { obj, old: false, fam: f, var: r.usize(3) as u8, wrap: wrap(r), slot, io: soft(r), repr: repr(r, f), hurt: None }
}
fn load(r: &mut Rng, slot: usize) -> Step {
    Step::Load { slot, old: false, var: r.usize(3) as u8, pres: pres(r, false), io: soft(r) }
}
/// a position within a typical file
fn place(r: &mut Rng) -> u64 {
    match r.usize(5) {
        0 => r.below(8),
        1 => r.below(40),
        2 => r.below(120),
        3 => r.below(400),
        _ => r.below(1200),
    }
}

pub fn plan(prop: &str, r: &mut Rng) -> Disk {
    let objs = objects(r);
    let n = objs.len();
    let mut s = vec![];
    match prop {
        "C05" => {
            let k = 1 + r.usize(5);
            let mut used = vec![];
            for _ in 0..k {
                let slot = r.usize(6);
                let o = r.usize(n);
                s.push(save(r, o, slot));
                used.push(slot);
                if r.chance(0.2) {
                    let mut x = { let o = r.usize(n); save(r, o, slot) };
                    if let Step::Save { io, .. } = &mut x {
                        io.crash = Some(place(r));
                    }
                    // the machine stops while something else is saved elsewhere
                    if let Step::Save { slot, .. } = &mut x {
                        *slot = 7;
                    }
                    s.push(x);
                } else if r.chance(0.5) {
                    s.push(Step::Restart);
                }
                if r.chance(0.3) {
                    s.push(load(r, slot));
                }
            }
            if r.chance(0.8) {
                s.push(Step::Restart);
            }
            for _ in 0..1 + r.usize(5) {
                let slot = *r.pick(&used);
                if r.chance(0.25) {
                    let to = r.usize(6);
                    s.push(Step::Resave { slot, old: false, pres: pres(r, false), to, fam: fam(r), var: r.usize(2) as u8, wrap: r.chance(0.5) });
                    used.push(to);
                    if r.chance(0.5) {
                        s.push(Step::Restart);
                    }
                    s.push(load(r, to));
                } else {
                    s.push(load(r, slot));
                }
            }
        }
        "C06" => {
            let k = 1 + r.usize(3);
            for _ in 0..k {
                let slot = r.usize(4);
                let o = r.usize(n);
                match r.usize(10) {
                    0..=4 => {
                        // structural damage
                        let f = [Fam::Json, Fam::Cbor, Fam::Tree][r.weighted(&[5, 2, 5])];
                        let mut rp = repr(r, f).unwrap_or_default();
                        rp.digits = 0;
                        s.push(Step::Save {
                            obj: o,
                            old: false,
                            fam: f,
                            var: 0,
                            wrap: Wrap::Plain,
                            slot,
                            io: Io::default(),
                            repr: Some(rp),
                            hurt: Some((r.below(64), r.below(val::HURTS) as u8, r.next() >> 16)),
                        });
                    }
                    5 => {
                        // power failure in the middle of a save, on an empty file or over an older one
                        let mut x = save(r, o, slot);
                        if let Step::Save { io, .. } = &mut x {
                            io.crash = Some(place(r));
                            io.inplace = r.chance(0.4);
                        }
                        if r.chance(0.5) {
                            let mut y = x.clone();
                            if let Step::Save { io, obj, .. } = &mut y {
                                *io = Io::default();
                                *obj = r.usize(n);
                                if objs[*obj].kind != objs[o].kind {
                                    *obj = o;
                                }
                            }
                            s.push(y);
                        }
                        s.push(x);
                    }
                    _ => {
                        s.push(save(r, o, slot));
                        if r.chance(0.5) {
                            s.push(Step::Restart);
                        }
                        let m = if r.chance(0.2) { 3 } else { 1 };
                        for _ in 0..m {
                            let seed = r.next() >> 16;
                            let h = match r.usize(11) {
                                0..=2 => {
                                    let keep = if r.chance(0.5) { 1000 } else { r.usize(1001) as u16 };
                                    let most = if r.chance(0.5) { 3 } else { 60 };
                                    Hurt::Cut(keep, 1 + r.below(most) as u16)
                                }
                                3 | 4 => Hurt::Flip(seed, 1 + r.usize(3) as u8),
                                5 => Hurt::Wipe(seed, r.usize(3) as u8),
                                6 => Hurt::Repeat(seed),
                                7 => Hurt::Lose(seed),
                                8 => Hurt::Splice(seed, r.usize(4)),
                                9 => Hurt::Char(seed),
                                _ => Hurt::Append(seed),
                            };
                            s.push(Step::Hurt { slot, hurt: h });
                        }
                    }
                }
                for _ in 0..1 + r.usize(3) {
                    let mut l = load(r, slot);
                    if let Step::Load { pres: p, .. } = &mut l {
                        *p = pres(r, true);
                    }
                    s.push(l);
                }
                if r.chance(0.3) {
                    // sound data afterwards
                    let o = r.usize(n);
                s.push(save(r, o, 5));
                    s.push(load(r, 5));
                }
            }
        }
        "C07" => {
            for _ in 0..1 + r.usize(3) {
                let slot = r.usize(4);
                let o = r.usize(n);
                let good = save(r, o, slot);
                let hit = |r: &mut Rng, io: &mut Io, f: Fam| {
                    io.once = r.chance(0.4);
                    if f == Fam::Tree && r.chance(0.8) {
                        let most = if r.chance(0.5) { 12 } else { 90 };
                        io.event = Some(r.below(most));
                    } else {
                        io.fail = Some((place(r), r.usize(5) as u8));
                    }
                };
                if r.chance(0.6) {
                    for _ in 0..1 + r.usize(3) {
                        let mut x = good.clone();
                        if let Step::Save { io, fam, repr, .. } = &mut x {
                            *repr = None;
                            hit(r, io, *fam);
                        }
                        s.push(x);
                        if r.chance(0.3) {
                            s.push(load(r, slot));
                        }
                    }
                }
                s.push(good.clone());
                if r.chance(0.3) {
                    s.push(Step::Restart);
                }
                let f = match &good {
                    Step::Save { fam, .. } => *fam,
                    _ => Fam::Json,
                };
                for _ in 0..1 + r.usize(4) {
                    let mut l = load(r, slot);
                    if r.chance(0.8) {
                        if let Step::Load { io, .. } = &mut l {
                            hit(r, io, f);
                        }
                    }
                    s.push(l);
                    if r.chance(0.5) {
                        s.push(load(r, slot));
                    }
                }
            }
        }
        _ => {
            // C08: both versions share the files
            let mut used = vec![];
            for _ in 0..1 + r.usize(3) {
                let slot = r.usize(5);
                let o = r.usize(n);
                let mut x = save(r, o, slot);
                if let Step::Save { old, repr, .. } = &mut x {
                    *old = r.chance(0.5);
                    *repr = None;
                }
                s.push(x);
                used.push(slot);
            }
            for _ in 0..2 + r.usize(6) {
                if r.chance(0.3) {
                    s.push(Step::Restart);
                }
                let slot = *r.pick(&used);
                let old = r.chance(0.5);
                if r.chance(0.5) {
                    let to = r.usize(5);
                    s.push(Step::Resave { slot, old, pres: pres(r, false), to, fam: fam(r), var: r.usize(2) as u8, wrap: r.chance(0.5) });
                    used.push(to);
                } else {
                    let mut l = load(r, slot);
                    if let Step::Load { old: x, .. } = &mut l {
                        *x = old;
                    }
                    s.push(l);
                }
            }
            for slot in used {
                for old in [false, true] {
                    let mut l = load(r, slot);
                    if let Step::Load { old: x, .. } = &mut l {
                        *x = old;
                    }
                    s.push(l);
                }
            }
        }
    }
    Disk { objs, steps: s }
}

pub fn nontrivial(prop: &str, o: &Outcome) -> bool {
    let c = |k: usize| o.ctr.get(k).copied().unwrap_or(0);
    match prop {
        "C05" => c(ctr::RESTART) > 0 && c(ctr::LOADS_OK) > 0,
        "C06" => c(ctr::CORRUPT) + c(ctr::CRASHPOINT) > 0,
        "C07" => c(ctr::IO_EIO) + c(ctr::IO_ENOSPC) + c(ctr::IO_EOF) + c(ctr::CODEC_FAULT) > 0,
        _ => c(ctr::LOADS_OK) > 0,
    }
}

/// Simpler variants, for the minimiser.
pub fn smaller(d: &Disk) -> Vec<Disk> {
    let mut v = vec![];
    let n = d.steps.len();
    let mut chunk = n.div_ceil(2);
    while chunk > 0 {
        let mut a = 0;
        while a < n {
            let mut e = d.clone();
            e.steps.drain(a..(a + chunk).min(n));
            if !e.steps.is_empty() {
                v.push(e);
            }
            a += chunk;
        }
        if chunk == 1 {
            break;
        }
        chunk = chunk.div_ceil(2);
    }
    for i in 0..n {
        let mut try_ = |f: &dyn Fn(&mut Step)| {
            let mut e = d.clone();
            f(&mut e.steps[i]);
            if e != *d {
                v.push(e);
            }
        };
        try_(&|s| match s {
            Step::Save { io, .. } | Step::Load { io, .. } => *io = Io::default(),
            _ => {}
        });
        try_(&|s| match s {
            Step::Save { io, .. } | Step::Load { io, .. } => {
                io.split = 0;
                io.buf = false;
            }
            _ => {}
        });
        try_(&|s| match s {
            Step::Save { repr, .. } => *repr = None,
            Step::Load { pres, .. } | Step::Resave { pres, .. } => *pres = PresJ::default(),
            _ => {}
        });
        try_(&|s| match s {
            Step::Save { repr: Some(p), .. } => {
                p.style = 0;
                p.digits = 0;
            }
            Step::Load { pres, .. } | Step::Resave { pres, .. } => {
                pres.perm = 0;
                pres.hint = 0;
                pres.widen = false;
                pres.machine = false;
            }
            _ => {}
        });
        try_(&|s| match s {
            Step::Save { wrap, .. } => *wrap = Wrap::Plain,
            Step::Load { pres, .. } => pres.key = 0,
            _ => {}
        });
        try_(&|s| match s {
            Step::Save { var, .. } | Step::Load { var, .. } | Step::Resave { var, .. } => *var = 0,
            _ => {}
        });
    }
    for i in 0..d.objs.len() {
        let used = d.steps.iter().any(|s| matches!(s, Step::Save { obj, .. } if *obj == i));
        if !used && d.objs.len() > 1 {
            let mut e = d.clone();
            e.objs.remove(i);
            for s in &mut e.steps {
                if let Step::Save { obj, .. } = s {
                    if *obj > i {
                        *obj -= 1;
                    }
                }
            }
            v.push(e);
            continue;
        }
        let mut set = |f: &dyn Fn(&mut ObjSpec)| {
            let mut e = d.clone();
            f(&mut e.objs[i]);
            if e != *d {
                v.push(e);
            }
        };
        set(&|o| o.px.clear());
        set(&|o| o.px.truncate(1));
        set(&|o| o.single = false);
        set(&|o| o.quat = [F(1.0), F(0.0), F(0.0), F(0.0)]);
        set(&|o| o.cen = [F(1.0), F(2.0), F(3.0)]);
        set(&|o| o.lens = [F(100.0), F(110.0), F(0.5), F(320.0), F(240.0)]);
    }
    v
}
