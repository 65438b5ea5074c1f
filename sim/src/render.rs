//! Runs the drawing example on a simulated file system with faults (C13).
use crate::plan::*;
use crate::runner::{silence, Runner};
use camex::vfs::{self, Faults, Fs, Strike};
use serde::{Deserialize, Serialize};
use simcore::engine::rec;
use simcore::proc::{child, Exit};
use simcore::rng::{mix, Rng};
use simcore::shared::{ctr, Rec, NDISK};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// The program is started several times in the same directory.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Render {
    /// what lies in the directory at first: 0 nothing, 1 longer files, 2 older drawings
    #[serde(default)]
    pub stale: u8,
    pub starts: Vec<Faults>,
}

type Files = BTreeMap<String, Vec<u8>>;

fn store(r: &mut Rec, ok: u64, fired: u32, files: &Files) {
    let v = serde_json::to_vec(&(ok, fired, files)).unwrap_or_default();
    let n = v.len().min(NDISK);
    r.disk[..n].copy_from_slice(&v[..n]);
    r.disklen = n as u64;
    let mut h = mix(ok);
    for (k, f) in files {
        h = k.bytes().chain(f.iter().copied()).fold(mix(h), |h, b| mix(h ^ b as u64));
    }
    r.fold(h);
}
fn stopped(f: &Fs) {
    store(rec(), 2, f.fired, &f.files);
}

impl Runner {
    /// (1 success, 0 failure, 2 the machine stopped; faults that struck; files)
    fn start(&mut self, files: &Files, f: &Faults, o: &mut Outcome) -> Option<(u64, u32, Files)> {
        let rec = self.rec;
        unsafe { (*rec).disklen = 0 };
        let ex = child(rec, 10, 0, || {
            silence();
            vfs::start(files.clone(), f.clone(), stopped);
            // the example may leave through exit()
            extern "C" fn leave() {
                if let Some(f) = vfs::finish() {
                    store(simcore::engine::rec(), 3, f.fired, &f.files);
                }
            }
            unsafe { libc::atexit(leave) };
            let r = catch_unwind(AssertUnwindSafe(camex::run));
            let f = vfs::finish().expect("running");
            store(simcore::engine::rec(), matches!(r, Ok(true)) as u64, f.fired, &f.files);
        });
        let r = self.rec();
        for (a, b) in o.ctr.iter_mut().zip(&r.ctr) {
            *a += b;
        }
        o.digest = mix(o.digest ^ r.digest);
        o.calls += 1;
        let got: Option<(u64, u32, Files)> = serde_json::from_slice(&r.disk[..r.disklen as usize]).ok();
        match (ex, got) {
            (Exit::Hang | Exit::Slow, _) => {
                o.viol = Some(Viol { class: "HANG".into(), what: format!("the example does not end: {f:?}") });
                None
            }
            (Exit::Signal(s), _) => {
                o.viol = Some(Viol { class: "CRASH".into(), what: format!("the example died of signal {s}: {f:?}") });
                None
            }
            // 3: left through exit(); the status is the process's
            (Exit::Ok, Some((3, n, v))) => Some((1, n, v)),
            (Exit::Code(_), Some((3, n, v))) => Some((0, n, v)),
            (_, Some(g)) => Some(g),
            (e, None) => {
                o.harness_error = Some(format!("the example left no result: {e:?}"));
                None
            }
        }
    }

    pub fn render(&mut self, p: &Render) -> Outcome {
        let mut o = Outcome { ctr: vec![0; simcore::shared::NCTR], digest: 13, ..Default::default() };
        let Some((st, _, good)) = self.start(&Files::new(), &Faults::default(), &mut o) else { return o };
        let whole = |f: &[u8]| f.windows(4).any(|w| w == b"<svg") && f.ends_with(b"</svg>\n");
        if st != 1 || good.len() < 2 || !good.values().all(|f| whole(f)) {
            o.viol = Some(Viol {
                class: "INCOMPLETE_WITHOUT_FAULT".into(),
                what: format!("without any fault: success {st}, files {:?}", good.iter().map(|f| (f.0, f.1.len())).collect::<Vec<_>>()),
            });
            return o;
        }
        let mut files = match p.stale {
            0 => Files::new(),
            1 => good.keys().map(|k| (k.clone(), b"<!-- something longer was here before -->\n".repeat(400))).collect(),
            _ => good.clone(),
        };
        for (i, f) in p.starts.iter().enumerate() {
            let Some((st, fired, now)) = self.start(&files, f, &mut o) else { return o };
            o.nontrivial |= fired > 0;
            o.trace.push(format!("start {i}: {} after {fired} faults", ["failure", "success", "machine stopped"][st.min(2) as usize]));
            if st == 2 {
                o.ctr[ctr::RESTART] += 1;
            }
            if st == 1 {
                for (k, v) in &good {
                    let len = now.get(k).map(|x| x.len());
                    if now.get(k) != Some(v) {
                        o.viol = Some(Viol {
                            class: "INCOMPLETE_FILE_REPORTED_AS_SUCCESS".into(),
                            what: format!("start {i}: success although {k} has {len:?} bytes and not the {} it should have: {f:?}", v.len()),
                        });
                        return o;
                    }
                }
            }
            files = now;
        }
        o
    }
}

const ERRNOS: [i32; 9] = [28, 5, 122, 27, 11, 4, 32, 30, 110];

fn strike(r: &mut Rng) -> Strike {
    match r.usize(6) {
        0 | 1 => Strike::Err(*r.pick(&ERRNOS)),
        2 | 3 => Strike::Short(1 + r.usize(90) as u16),
        4 => Strike::Torn(1 + r.usize(90) as u16, *r.pick(&ERRNOS)),
        _ => Strike::Short(0),
    }
}

pub fn plan(r: &mut Rng) -> Render {
    let mut p = Render { stale: r.usize(3) as u8, starts: vec![] };
    for _ in 0..1 + r.usize(3) {
        let mut f = Faults::default();
        if r.chance(0.3) {
            f.split = r.next() | 1;
        }
        // an undisturbed program makes some 80 writes, a split one up to a thousand
        let many = if f.split != 0 { 900 } else { 84 };
        match r.usize(8) {
            0..=2 => {
                for _ in 0..1 + r.usize(3) {
                    let k = match r.usize(4) {
                        0 => r.usize(4),
                        1 => many - 1 - r.usize(many / 4),
                        _ => r.usize(many),
                    };
                    f.write.push((k as u32, strike(r)));
                }
            }
            3 => f.dead = Some((r.usize(many) as u32, *r.pick(&[28, 5, 122, 27, 11, 32]))),
            4 => f.room = Some(if r.chance(0.5) { r.below(14000) } else { r.below(200) + 6000 }),
            5 => f.open.push((r.usize(2) as u32, Strike::Err(*r.pick(&[24, 13, 28, 4, 5, 30, 122])))),
            6 => f.write.push((r.usize(many) as u32, Strike::Crash(r.usize(120) as u16))),
            _ => f.other.push((r.usize(3) as u32, Strike::Err(*r.pick(&[4, 5, 28, 122])))),
        }
        if r.chance(0.2) {
            f.other.push((r.usize(3) as u32, Strike::Err(5)));
        }
        p.starts.push(f);
    }
    if r.chance(0.3) {
        p.starts.push(Faults::default());
    }
    p
}

/// Simpler variants, for the minimiser.
pub fn smaller(d: &Render) -> Vec<Render> {
    let mut v = vec![];
    let mut add = |e: Render| {
        if e != *d && !e.starts.is_empty() {
            v.push(e)
        }
    };
    add(Render { stale: 0, ..d.clone() });
    for i in 0..d.starts.len() {
        let mut e = d.clone();
        e.starts.remove(i);
        add(e);
        let mut set = |g: &dyn Fn(&mut Faults)| {
            let mut e = d.clone();
            g(&mut e.starts[i]);
            add(e);
        };
        set(&|f| f.split = 0);
        set(&|f| f.open.clear());
        set(&|f| f.other.clear());
        set(&|f| f.room = None);
        set(&|f| f.dead = None);
        set(&|f| f.write.clear());
        for k in 0..d.starts[i].write.len() {
            set(&|f| {
                f.write.remove(k);
            });
            set(&|f| f.write[k].0 /= 2);
        }
    }
    v
}
