//! Executes plans: every simulated run is a forked child of a process that never called the code
//! under test itself, so every run starts from the state of a fresh process.
use crate::plan::*;
use camglue::exec::{self, Shared, SharedBundle};
use camglue::spec::*;
use simcore::engine::{self, Ev, OpCfg, NEVER};
use simcore::proc::{child, Exit};
use simcore::shared::*;
use simcore::alloc;
use std::collections::HashMap;

pub const REF_BUDGET: u64 = 20_000_000;

pub struct Runner {
    pub rec: *mut Rec,
    pub refs: HashMap<String, Ref>,
    pub ref_runs: u64,
    pub cpu_s: u32,
}

/// What a call does when it is made alone in a fresh process.
#[derive(Clone)]
pub struct Ref {
    pub res: Box<OpRes>,
    pub usable: bool,
    /// it cannot even complete alone
    pub broken: Option<String>,
}

impl Ref {
    /// Ticks of the call itself, the construction of its object not counted.
    pub fn solo(&self, how: How) -> u64 {
        match how {
            How::Fresh => self.res.steps,
            _ => self.res.steps - self.res.build_steps.min(self.res.steps),
        }
    }
    pub fn seams(&self, how: How) -> u64 {
        match how {
            How::Fresh => self.res.seams,
            _ => self.res.seams - self.res.build_seams.min(self.res.seams),
        }
    }
    pub fn hot(&self, how: How) -> Vec<u64> {
        let h = &self.res.hot[..self.res.nhot as usize];
        match how {
            How::Fresh => h.iter().map(|x| *x as u64).collect(),
            _ => h.iter().map(|x| *x as u64).filter(|x| *x >= self.res.build_steps).map(|x| x - self.res.build_steps).collect(),
        }
    }
}

struct RunData {
    plan: *const Calls,
    refs: Vec<Box<OpRes>>,
    camof: Vec<usize>,
    cams: Vec<Option<Shared>>,
    bundles: Vec<Option<SharedBundle>>,
    single: Option<Combo>,
}
static mut RD: Option<RunData> = None;

#[allow(static_mut_refs)]
fn rd() -> &'static RunData {
    unsafe { RD.as_ref().unwrap() }
}

fn ref_body(_tid: usize) {
    let c = rd().single.as_ref().unwrap();
    engine::op_begin(0, OpCfg { budget: REF_BUDGET, ..Default::default() }, 0);
    exec::exec(c, None, None, How::Fresh, 0);
    engine::rec().res = *engine::op_end();
}

pub fn varied(c: &Combo, k: u32) -> Combo {
    let mut v = c.clone();
    let e = k as f64 * 1e-3;
    if k & 1 == 0 || c.inp.rows.is_empty() {
        match &mut v.cam.lens {
            Lens::Persp(a) => a[0].0 += e,
            Lens::Ortho(a) => a[0].0 += e,
            Lens::UserO(a, ..) | Lens::UserD(a, ..) => a[0].0 += e,
            Lens::Matrix(a) => a[0].0 += e,
        }
        match &mut v.cam.pose {
            Pose::Rot(_, p) | Pose::Iso(_, p) => p[1].0 += e,
            Pose::View(p, ..) => p[1].0 += e,
            Pose::Pmat(m) => m[0].0 += e,
        }
    } else {
        for r in &mut v.inp.rows {
            r[0].0 += e;
        }
    }
    v
}

fn item_at(p: &Calls, tid: usize, op: u32) -> &Item {
    let prog = &p.progs[tid];
    &prog[op as usize % prog.len()]
}

fn nested(tid: usize) {
    let rd = rd();
    let p = unsafe { &*rd.plan };
    let t = engine::managed().unwrap();
    let op = t.op;
    let Some((_, k)) = item_at(p, tid, op).reenter else { return };
    t.res.clear();
    t.res.status = st::RUNNING;
    let sim = t.in_call;
    if p.model_log {
        engine::rec().push_log(camglue::model::MAGIC | 0xC << 8 | tid as u64);
    }
    exec::exec(&p.combos[k], rd.cams[rd.camof[k]].as_ref(), rd.bundles[k].as_ref(), How::Shared, 0);
    t.in_call = sim;
    if p.model_log {
        engine::rec().push_log(camglue::model::MAGIC | 0xD << 8 | tid as u64);
    }
    let want = &rd.refs[k];
    if !t.res.same(want) {
        engine::rec().fail(fk::NESTED, k as u32, tid, op, [0; 6], Some(&t.res));
    }
}

fn body(tid: usize) {
    let rd = rd();
    let p = unsafe { &*rd.plan };
    let prog = &p.progs[tid];
    let reps = p.rep(tid) as usize;
    let total = prog.len() * reps;
    for n in 0..total {
        let it = &prog[n % prog.len()];
        let want = &rd.refs[it.combo];
        let how = it.how.0;
        let mut budget = want.steps.saturating_mul(50) + 200_000;
        if let Some((_, k)) = it.reenter {
            budget += rd.refs[k].steps * 50;
        }
        let cfg = OpCfg {
            budget,
            panic_at: it.panic_at.unwrap_or(NEVER),
            deny_from: it.deny.unwrap_or(NEVER),
            reenter_at: it.reenter.map_or(NEVER, |x| x.0),
        };
        if p.leak && tid == 0 && (n == total / 2 || n == total / 4) {
            engine::rec().mem[(n == total / 2) as usize] = alloc::live() as u64;
        }
        if p.model_log {
            let r = engine::rec();
            r.push_log(camglue::model::MAGIC | 0xB << 8 | tid as u64);
            r.push_log(n as u64);
        }
        if it.vary != 0 {
            let c = varied(&p.combos[it.combo], it.vary.wrapping_mul((n / prog.len()) as u32 + 1));
            let cfg = OpCfg { budget: REF_BUDGET, ..cfg };
            engine::op_begin(n as u32, cfg, it.sw);
            exec::exec(&c, None, None, How::Fresh, it.keep);
            engine::op_end();
            continue;
        }
        engine::op_begin(n as u32, cfg, it.sw);
        let make = || exec::exec(&p.combos[it.combo], rd.cams[rd.camof[it.combo]].as_ref(), rd.bundles[it.combo].as_ref(), how, it.keep);
        if it.unwind {
            // made by a destructor while the caller unwinds from something else
            struct Late<F: Fn()>(F);
            impl<F: Fn()> Drop for Late<F> {
                fn drop(&mut self) {
                    (self.0)()
                }
            }
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _late = Late(make);
                std::panic::resume_unwind(Box::new(0u8))
            }));
        } else {
            make();
        }
        let t = engine::managed().unwrap();
        let injected = t.injected;
        let got = engine::op_end();
        if p.model_log {
            engine::rec().push_log(camglue::model::MAGIC | 0xE << 8 | tid as u64);
        }
        if injected && (got.status == st::INJECTED || got.status == st::PANICKED) {
            continue;
        }
        if !got.same(want) {
            let kind = if got.status == st::PANICKED && want.status == st::DONE { fk::PANIC } else { fk::MISMATCH };
            engine::rec().fail(kind, it.combo as u32, tid, n as u32, [0; 6], Some(got));
            if engine::rec().nfail as usize >= NFAIL {
                engine::finish();
            }
        }
    }
    if p.leak && tid == 0 {
        engine::rec().mem[2] = alloc::live() as u64;
    }
}

fn kind_name(k: u32) -> &'static str {
    match k {
        fk::MISMATCH => "MISMATCH",
        fk::NO_PROGRESS => "NO_PROGRESS",
        fk::BLOCKED_BY_STALLED => "BLOCKED_BY_STALLED",
        fk::DEADLOCK => "DEADLOCK",
        fk::PANIC => "PANIC",
        fk::LEAK => "LEAK",
        fk::ASSERT => "ASSERT",
        fk::NESTED => "NESTED",
        fk::CRASH => "CRASH",
        fk::HANG => "HANG",
        fk::HEAP => "HEAP",
        _ => "FAIL",
    }
}

pub fn status_name(s: u32) -> &'static str {
    match s {
        st::DONE => "returned",
        st::PANICKED => "panicked",
        st::INJECTED => "unwound",
        st::RUNNING => "did not finish",
        _ => "not run",
    }
}

fn words(r: &OpRes) -> String {
    let n = (r.n as usize).min(12);
    let w: Vec<String> = r.words[..n]
        .iter()
        .map(|w| {
            let f = f64::from_bits(*w);
            if *w < 1 << 20 {
                format!("{w}")
            } else {
                format!("{f:e}")
            }
        })
        .collect();
    format!("{} [{}{}]", status_name(r.status), w.join(" "), if r.n as usize > n { " ..." } else { "" })
}

pub fn silence() {
    unsafe {
        let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
        }
    }
}

impl Runner {
    pub fn new() -> Runner {
        Runner {
            rec: map_shared(core::mem::size_of::<Rec>()) as *mut Rec,
            refs: HashMap::new(),
            ref_runs: 0,
            cpu_s: 20,
        }
    }
    pub fn rec(&self) -> &Rec {
        unsafe { &*self.rec }
    }

    pub fn reference(&mut self, c: &Combo) -> Ref {
        let key = c.key();
        if let Some(r) = self.refs.get(&key) {
            return r.clone();
        }
        self.ref_runs += 1;
        let cc = c.clone();
        let ex = child(self.rec, self.cpu_s, 0, || {
            silence();
            alloc::activate(0);
            engine::setup(1, &[], 1 << 40, 0);
            unsafe {
                RD = Some(RunData {
                    plan: core::ptr::null(),
                    refs: vec![],
                    camof: vec![],
                    cams: vec![],
                    bundles: vec![],
                    single: Some(cc),
                })
            };
            engine::run(ref_body, 0, 0);
        });
        let rec = self.rec();
        let mut r = Ref { res: Box::new(rec.res), usable: false, broken: None };
        match ex {
            Exit::Ok if rec.nfail == 0 => {
                r.usable = matches!(r.res.status, st::DONE | st::PANICKED);
            }
            Exit::Ok => {
                let k = rec.fails[0].kind;
                if k != fk::NO_PROGRESS {
                    r.broken = Some(format!("{} in a single call made alone in a fresh process", kind_name(k)));
                }
            }
            Exit::Signal(s) => r.broken = Some(format!("signal {s} in a single call made alone in a fresh process")),
            Exit::Hang | Exit::Slow => r.broken = Some("a single call made alone in a fresh process hangs".into()),
            Exit::Code(c) => {
                eprintln!("harness error: reference child exited with {c}");
                std::process::exit(2)
            }
        }
        if self.refs.len() > 4000 {
            self.refs.clear();
        }
        self.refs.insert(key, r.clone());
        r
    }

    /// Run a plan of calls.
    pub fn calls(&mut self, p: &Calls) -> Outcome {
        let refs: Vec<Ref> = p.combos.iter().map(|c| self.reference(c)).collect();
        let mut used = vec![false; p.combos.len()];
        for it in p.progs.iter().flatten() {
            used[it.combo] = true;
            if let Some((_, k)) = it.reenter {
                used[k] = true;
            }
        }
        let out = self.calls_once(p, &refs, &used);
        if p.leak && out.viol.is_none() && out.harness_error.is_none() {
            // memory in use at a quarter, at half, at the end
            let m = self.rec().mem;
            let grow = m[2].saturating_sub(m[1]);
            // (calls that differ may fill a cache of bounded size for a while, equal ones may not)
            let most = if p.progs[0].iter().any(|i| i.vary != 0) { 40 << 10 } else { 1 << 10 };
            if grow > most {
                // a little more has to go on for longer
                let times = if grow > 8 << 10 { 4 } else { 16 };
                // does it go on?
                let mut q = p.clone();
                q.reps = (0..p.progs.len()).map(|t| if t == 0 { p.rep(0) * times } else { p.rep(t) }).collect();
                let o2 = self.calls_once(&q, &refs, &used);
                let m2 = self.rec().mem;
                let grow2 = m2[2].saturating_sub(m2[1]);
                let n2 = (q.rep(0) as u64 / 2) * q.progs[0].len() as u64;
                if o2.viol.is_some() {
                    return o2;
                }
                if grow2 as f64 > 0.625 * times as f64 * grow as f64 {
                    let mut o = out;
                    o.viol = Some(Viol {
                        class: "LEAK".into(),
                        what: format!(
                            "memory in use grew by {grow} bytes over the second half of {} calls whose results were all dropped, and by {grow2} bytes over {n2} calls in a run {times} times as long",
                            p.rep(0) as u64 * p.progs[0].len() as u64
                        ),
                    });
                    return o;
                }
            }
        }
        out
    }

    fn calls_once(&mut self, p: &Calls, refs: &[Ref], used: &[bool]) -> Outcome {
        let mut o = Outcome::default();
        for (i, r) in refs.iter().enumerate() {
            if used[i] {
                if let Some(b) = &r.broken {
                    o.viol = Some(Viol { class: "ALONE".into(), what: format!("{b}: {}", p.combos[i].key()) });
                    return o;
                }
                if !r.usable {
                    o.harness_error = Some("plan uses an unusable combination".into());
                    return o;
                }
            }
        }
        let n = p.progs.len();
        let pp: *const Calls = p;
        let ex = child(self.rec, self.cpu_s, 2, || {
            silence();
            alloc::activate(p.addr_seed);
            let evs: Vec<Vec<Ev>> = p
                .evs
                .iter()
                .map(|v| v.iter().map(|e| Ev { op: e.op, step: e.step, act: e.act, arg: e.arg }).collect())
                .collect();
            engine::setup(n, &evs, p.quantum, p.env_seed);
            engine::g().scarce = p.scarce;
            simcore::world::begin(p.env_seed);
            if p.audit {
                engine::make_last(n - 1);
            }
            // the shared objects: what a call makes for itself is not made here, so that it is the
            // first to do so in this process
            let mut needed = vec![false; p.combos.len()];
            for it in p.progs.iter().flatten() {
                if it.vary == 0 && it.how.0 != How::Fresh {
                    needed[it.combo] = true;
                }
                if let Some((_, k)) = it.reenter {
                    needed[k] = true;
                }
            }
            let mut specs: Vec<&CamSpec> = vec![];
            let mut camof = vec![];
            let mut cams = vec![];
            for (i, c) in p.combos.iter().enumerate() {
                let k = match specs.iter().position(|s| **s == c.cam) {
                    Some(k) => k,
                    None => {
                        specs.push(&c.cam);
                        cams.push(None);
                        specs.len() - 1
                    }
                };
                if needed[i] && cams[k].is_none() {
                    cams[k] = exec::build_shared(&c.cam);
                }
                camof.push(k);
            }
            let bundles = p
                .combos
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    if c.op == Op::BundleUse && needed[i] {
                        cams[camof[i]].as_ref().and_then(|s: &Shared| exec::build_bundle(c, s))
                    } else {
                        None
                    }
                })
                .collect();
            let refs = refs.iter().map(|r| r.res.clone()).collect();
            unsafe {
                RD = Some(RunData { plan: pp, refs, camof, cams, bundles, single: None });
                camglue::model::LOG = p.model_log;
                engine::LOG_RES = p.model_log && n == 1;
            }
            engine::g().reenter = Some(nested);
            engine::run(body, p.first, p.addr_seed);
            engine::account();
        });
        self.outcome(&mut o);
        let rec = self.rec();
        let place = |tid: usize, op: u32| {
            if tid < n && !p.progs[tid].is_empty() {
                let it = item_at(p, tid, op);
                format!("caller {tid}, call {op}: {}", crate::describe(&p.combos[it.combo], it.how.0))
            } else {
                format!("caller {tid}, call {op}")
            }
        };
        match ex {
            Exit::Ok => {}
            Exit::Signal(libc::SIGABRT) if rec.denied[0] != 0 => {
                let (t, op) = (rec.denied[0] as usize - 1, rec.denied[1]);
                let it = item_at(p, t, op);
                let c = &p.combos[it.combo];
                if c.fixed() && refs[it.combo].res.status == st::DONE && it.vary == 0 {
                    o.viol = Some(Viol {
                        class: "HEAP".into(),
                        what: format!("data of fixed size, but a refused heap allocation ended the process; {}", place(t, op)),
                    });
                }
                o.aborted_on_denial = true;
            }
            Exit::Signal(s) => {
                o.viol = Some(Viol { class: "CRASH".into(), what: format!("the process died of signal {s}; running: {}", running(rec, &place)) })
            }
            Exit::Hang => {
                o.viol = Some(Viol { class: "HANG".into(), what: format!("no progress; running: {}", running(rec, &place)) })
            }
            // neither held nor broken: everything up to there was checked
            Exit::Slow => {
                o.extra.insert("runs_cut_short".into(), 1);
            }
            Exit::Code(c) => o.harness_error = Some(format!("child exited with {c}")),
        }
        if o.viol.is_none() && rec.nfail > 0 {
            let f = &rec.fails[0];
            let at = place(f.tid as usize, f.op);
            let what = match f.kind {
                fk::MISMATCH | fk::PANIC => {
                    let k = f.aux as usize;
                    format!("{at}: {} instead of {} as when made alone in a fresh process", words(&f.res), words(&refs[k].res))
                }
                fk::NESTED => {
                    let k = f.aux as usize;
                    format!(
                        "call made from inside user code ({}): {} instead of {}; inside {at}",
                        crate::describe(&p.combos[k], How::Shared),
                        words(&f.res),
                        words(&refs[k].res)
                    )
                }
                fk::NO_PROGRESS => format!("{at}: not complete after {} steps of its own", f.info[0]),
                fk::BLOCKED_BY_STALLED => format!("{at}: waits for a caller that has stopped running"),
                fk::DEADLOCK => format!("{at}: waits for ever"),
                fk::CRASH => format!("{at}: ends the whole program, exit code {}", f.aux),
                _ => at,
            };
            o.viol = Some(Viol { class: kind_name(f.kind).into(), what });
        }
        if o.viol.is_none() && o.harness_error.is_none() && p.model_log && ex == Exit::Ok {
            if let Err(e) = crate::modelcheck::check(self, p, refs) {
                o.viol = Some(Viol { class: "MODEL".into(), what: e });
            }
        }
        o
    }

    pub fn outcome(&self, o: &mut Outcome) {
        let rec = self.rec();
        o.digest = rec.digest;
        o.sched = rec.sched_hash;
        o.clock = rec.clock;
        o.switches = rec.nsw;
        o.ctr = rec.ctr.to_vec();
        o.steps = rec.ctr[ctr::STEPS];
        o.calls = rec.ctr[ctr::CALLS];
        o.trace = rec.trace[..(rec.nsw as usize).min(NTRACE)]
            .iter()
            .map(|s| {
                let why = ["preempted", "stalled", "quantum", "done", "blocked", "handover", "new thread first"][(s.why as usize).min(6)];
                format!("caller {} call {} step {}: {} -> caller {}", s.tid, s.op, s.step, why, s.to)
            })
            .collect();
    }
}

fn running(rec: &Rec, place: &dyn Fn(usize, u32) -> String) -> String {
    let v: Vec<String> =
        (0..MAXT).filter(|&i| rec.cur_op[i] != 0).map(|i| place(i, rec.cur_op[i] - 1)).collect();
    v.join("; ")
}
