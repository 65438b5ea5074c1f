//! One check: many blocks of runs in parallel worker processes, evidence, minimisation, replay.
use crate::minimise::minimise;
use crate::plan::*;
use crate::runner::Runner;
use crate::scen;
use serde::{Deserialize, Serialize};
use serde_json::json;
use simcore::rng::{mix, Rng};
use simcore::shared::{ctr, map_shared, NCTR};
use simcore::{cov, raw};
use std::collections::HashSet;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub tier: String,
    pub workers: usize,
    pub blocks: u64,
    pub secs: f64,
    pub verif: String,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Agg {
    pub runs: u64,
    pub blocks: Vec<(u64, u64)>,
    pub ref_runs: u64,
    pub unusable: u64,
    pub ctr: Vec<u64>,
    pub clock: u64,
    pub nontrivial: HashSet<u64>,
    pub scheds: HashSet<u64>,
    pub trivial: u64,
    pub replayed: u64,
    pub replay_diff: u64,
    pub extra: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub found: Option<Found>,
    pub error: Option<String>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Found {
    pub block: u64,
    pub idx: u64,
    pub plan: Option<Plan>,
    pub viol: Viol,
}

impl Agg {
    pub fn add(&mut self, prop: &str, o: &Outcome, pl: &Plan) {
        self.runs += 1;
        if self.ctr.is_empty() {
            self.ctr = vec![0; NCTR];
        }
        for (a, b) in self.ctr.iter_mut().zip(&o.ctr) {
            *a += b;
        }
        self.clock += o.clock;
        for (k, v) in &o.extra {
            *self.extra.entry(k.clone()).or_default() += v;
        }
        if nontrivial(prop, o, pl) {
            self.nontrivial.insert(o.digest);
            if o.switches > 0 {
                self.scheds.insert(o.sched);
            }
        } else {
            self.trivial += 1;
        }
        if self.samples.len() < 2 && nontrivial(prop, o, pl) {
            let s = serde_json::to_string(pl).unwrap_or_default();
            if s.len() < 6000 {
                self.samples.push(json!({"plan": pl, "schedule": o.trace, "digest": format!("{:016x}", o.digest)}));
            }
        }
    }
    fn merge(&mut self, o: Agg) {
        self.runs += o.runs;
        self.blocks.extend(o.blocks);
        self.ref_runs += o.ref_runs;
        self.unusable += o.unusable;
        if self.ctr.is_empty() {
            self.ctr = vec![0; NCTR];
        }
        for (a, b) in self.ctr.iter_mut().zip(&o.ctr) {
            *a += b;
        }
        self.clock += o.clock;
        self.nontrivial.extend(o.nontrivial);
        self.scheds.extend(o.scheds);
        self.trivial += o.trivial;
        self.replayed += o.replayed;
        self.replay_diff += o.replay_diff;
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        if self.samples.len() < 3 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        if let Some(f) = o.found {
            if self.found.as_ref().map_or(true, |g| (f.block, f.idx) < (g.block, g.idx)) {
                self.found = Some(f);
            }
        }
        if self.error.is_none() {
            self.error = o.error;
        }
    }
}

fn nontrivial(prop: &str, o: &Outcome, pl: &Plan) -> bool {
    let c = |k: usize| o.ctr.get(k).copied().unwrap_or(0);
    match (prop, pl) {
        ("C01", _) => c(ctr::SWITCH) + c(ctr::QUANTUM) > 0,
        ("C02", _) => c(ctr::STALL) > 0,
        ("C03", _) => c(ctr::PANIC) > 0,
        ("C04", _) => o.calls > 1,
        ("C09", Plan::Calls(p)) => p.progs.iter().flatten().any(|i| i.deny.is_some()),
        ("C10", _) => o.calls >= 400,
        ("C12", _) => c(ctr::MODEL_GARBAGE) > 0,
        ("C11", _) => c(ctr::MODEL_CALL) > 0,
        (_, Plan::Disk(_)) => crate::store::nontrivial(prop, o),
        _ => o.nontrivial,
    }
}

pub fn prop_tag(p: &str) -> u64 {
    p.bytes().fold(7, |h, b| mix(h ^ b as u64))
}

/// (plans per block, blocks, seconds) of a tier
pub fn size(prop: &str, tier: &str) -> (u64, u64, f64) {
    let per = match prop {
        "C10" => 6,
        "C04" => 20,
        _ => 60,
    };
    if tier == "thorough" {
        return (per, u64::MAX, 700.0);
    }
    let blocks = match prop {
        "C10" => 500,
        "C04" => 1200,
        "C11" => 800,
        "C05" | "C06" | "C07" | "C08" => 1200,
        "C12" | "C13" => 800,
        _ => 1600,
    };
    (per, blocks, 150.0)
}

/// Run one plan of a block. False: the block ends here.
fn one(cfg: &Cfg, run: &mut Runner, block: u64, i: u64, agg: &mut Agg, fold: &mut u64, plan: Plan) -> bool {
    let o = run.plan(&plan);
    if let Some(e) = o.harness_error.clone() {
        agg.error = Some(e);
        return false;
    }
    *fold = mix(*fold ^ o.digest);
    agg.add(&cfg.prop, &o, &plan);
    if let Some(v) = o.viol.clone() {
        agg.found = Some(Found { block, idx: i, plan: Some(plan), viol: v });
        return false;
    }
    if i == 0 && block % 4 == 0 {
        let o2 = run.plan(&plan);
        agg.replayed += 1;
        agg.replay_diff += (o2.digest != o.digest) as u64;
    }
    true
}

fn run_block(cfg: &Cfg, run: &mut Runner, block: u64, agg: &mut Agg, stop: &dyn Fn() -> bool) {
    let (per, ..) = size(&cfg.prop, &cfg.tier);
    let mut rb = Rng::stream(cfg.seed, prop_tag(&cfg.prop), block);
    let mut fold = 0u64;
    if ["C05", "C06", "C07", "C08", "C12", "C13"].contains(&cfg.prop.as_str()) {
        drop(rb);
        for i in 0..per {
            if stop() {
                return;
            }
            let mut r = Rng::stream(cfg.seed ^ 0x5EED, prop_tag(&cfg.prop) ^ block, i);
            let plan = if cfg.prop == "C13" {
                Plan::Render(crate::render::plan(&mut r))
            } else if cfg.prop == "C12" {
                Plan::Selfcheck(crate::selfcheck::plan(&mut r))
            } else {
                Plan::Disk(crate::store::plan(&cfg.prop, &mut r))
            };
            if !one(cfg, run, block, i, agg, &mut fold, plan) {
                break;
            }
        }
        agg.blocks.push((block, fold));
        return;
    }
    let r0 = run.ref_runs;
    let uni = match scen::universe(&cfg.prop, &mut rb, run) {
        Ok(u) => u,
        Err(v) => {
            agg.found = Some(Found { block, idx: 0, plan: None, viol: v });
            return;
        }
    };
    if uni.main == 0 {
        return;
    }
    for i in 0..per {
        if stop() {
            return;
        }
        let mut r = Rng::stream(cfg.seed ^ 0x5EED, prop_tag(&cfg.prop) ^ block, i);
        let plan = Plan::Calls(scen::plan(&cfg.prop, &mut r, &uni));
        if !one(cfg, run, block, i, agg, &mut fold, plan) {
            break;
        }
    }
    agg.ref_runs += run.ref_runs - r0;
    agg.blocks.push((block, fold));
}

pub fn check(cfg: &Cfg) -> i32 {
    let t0 = raw::real_ns();
    println!("seed {} property {} tier {} workers {}", cfg.seed, cfg.prop, cfg.tier, cfg.workers);
    let shared = map_shared(4096) as *const AtomicU64;
    let next: &AtomicU64 = unsafe { &*shared };
    let stopf: &AtomicU64 = unsafe { &*shared.add(8) };
    unsafe { cov::COV = map_shared(cov::COVMAX) };
    std::io::stdout().flush().ok();
    let deadline = t0 + (cfg.secs * 1e9) as u64;
    let mut pipes = vec![];
    for w in 0..cfg.workers {
        let mut fds = [0i32; 2];
        unsafe {
            if libc::pipe(fds.as_mut_ptr()) != 0 {
                eprintln!("pipe failed");
                return 2;
            }
            let pid = libc::fork();
            if pid < 0 {
                eprintln!("fork failed");
                return 2;
            }
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                simcore::proc::pin(w);
                let mut run = Runner::new();
                let mut agg = Agg { ctr: vec![0; NCTR], ..Default::default() };
                let stop = || stopf.load(SeqCst) != 0 || raw::real_ns() > deadline;
                loop {
                    let b = next.fetch_add(1, SeqCst);
                    if b >= cfg.blocks || stop() {
                        break;
                    }
                    run_block(cfg, &mut run, b, &mut agg, &stop);
                    if agg.found.is_some() || agg.error.is_some() {
                        stopf.store(1, SeqCst);
                        break;
                    }
                }
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let ok = f.write_all(&serde_json::to_vec(&agg).unwrap()).is_ok();
                drop(f);
                raw::exit_now(if ok { 0 } else { 3 });
            }
            libc::close(fds[1]);
            pipes.push((pid, std::fs::File::from_raw_fd(fds[0])));
        }
    }
    let mut agg = Agg::default();
    for (pid, mut f) in pipes {
        let mut v = vec![];
        let ok = f.read_to_end(&mut v).is_ok();
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        match serde_json::from_slice::<Agg>(&v) {
            Ok(a) if ok && status == 0 => agg.merge(a),
            _ => agg.error = Some(format!("worker ended with status {status:#x}")),
        }
    }
    if cfg.prop == "C01" && agg.found.is_none() {
        for (name, sync, uw) in camglue::exec::share_probe() {
            if !sync {
                agg.found = Some(Found {
                    block: 0,
                    idx: 0,
                    plan: None,
                    viol: Viol { class: "NOT_SHAREABLE".into(), what: format!("{name} cannot be shared between threads any more") },
                });
            }
            let _ = uw;
        }
    }
    if let Some(e) = &agg.error {
        eprintln!("harness error: {e}");
        return 2;
    }
    let explored = (raw::real_ns() - t0) as f64 / 1e9;
    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = &agg.found {
        let mut run = Runner::new();
        if let Some((plan, o, confirmed)) = confirm(&mut run, f) {
            let known = crate::known::listed(&cfg.verif, &cfg.prop, &o);
            if let Some(k) = known {
                println!("KNOWN-FINDING: property={} {}", cfg.prop, k);
            } else {
                let (plan, o) = match (&plan, confirmed) {
                    (Some(p), true) => {
                        let (p, o) = minimise(&mut run, p.clone(), o, 60.0);
                        (Some(p), o)
                    }
                    _ => (plan, o),
                };
                let v = o.viol.clone().unwrap();
                let dir = format!("{}/replays", cfg.verif);
                let _ = std::fs::create_dir_all(&dir);
                let path = format!("{dir}/{}-{}-{}.json", cfg.prop, cfg.seed, f.block);
                let j = json!({
                    "property": cfg.prop, "seed": cfg.seed, "block": f.block, "run": f.idx,
                    "class": v.class, "what": v.what, "plan": plan, "reproduced": confirmed,
                    "digest": format!("{:016x}", o.digest), "trace": o.trace,
                });
                if std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).is_err() {
                    eprintln!("harness error: cannot write {path}");
                    return 2;
                }
                println!("{}: {}", v.class, v.what);
                for t in o.trace.iter().take(40) {
                    println!("  {t}");
                }
                println!("VIOLATION property={} replay={}", cfg.prop, path);
                violations = 1;
                code = 1;
            }
        } else {
            println!("note: {} did not repeat and was set aside: {}", f.viol.class, f.viol.what);
        }
    }
    agg.blocks.sort();
    let batch = agg.blocks.iter().fold(0u64, |h, (b, d)| mix(h ^ mix(*b) ^ d));
    let wall = (raw::real_ns() - t0) as f64 / 1e9;
    let (edges, total) = cov::edges();
    let mut faults = serde_json::Map::new();
    let mut reach = serde_json::Map::new();
    for (k, n) in ctr::NAMES.iter().chain(ctr::NAMES2.iter()) {
        let v = agg.ctr.get(*k).copied().unwrap_or(0);
        let probe = matches!(*k, ctr::CALLS | ctr::STEPS | ctr::ALLOCS | ctr::HOT | ctr::MODEL_CALL | ctr::IO_READ | ctr::IO_WRITE | ctr::LOADS_OK | ctr::LOADS_ERR | ctr::SAVES_OK | ctr::SAVES_ERR | ctr::CHECK_OK | ctr::CHECK_PANIC | ctr::FUTEX_WAIT | ctr::FUTEX_WAKE);
        if probe {
            reach.insert(n.to_string(), json!(v));
        } else if v > 0 {
            faults.insert(n.to_string(), json!(v));
        }
    }
    for (k, v) in &agg.extra {
        reach.insert(k.clone(), json!(v));
    }
    let mut ev = json!({
        "property": cfg.prop,
        "tier": if cfg.tier == "thorough" { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg.runs,
            "distinct_nontrivial": agg.nontrivial.len(),
            "rule": crate::rule(&cfg.prop),
            "samples": agg.samples,
            "trivial_runs": agg.trivial,
            "reference_runs": agg.ref_runs,
            "blocks": agg.blocks.len(),
            "runs_and_seeds_per_hour": (agg.runs as f64 / explored.max(1e-9) * 3600.0) as u64,
            "simulated_seconds": agg.clock as f64 / 1e9,
            "faults_fired": faults,
            "reach": reach,
            "distinct_interleavings": agg.scheds.len(),
            "interleaving_measure": "distinct sequences of (caller, call, step, cause, next caller) over all hand-overs of a run",
            "edges_of_code_under_test_reached": edges,
            "edges_of_code_under_test": total,
            "replayed_twice": agg.replayed,
            "replayed_twice_with_difference": agg.replay_diff,
            "batch_digest": format!("{batch:016x}"),
            "real_components": crate::real(&cfg.prop),
            "simulated_components": crate::stubs(&cfg.prop),
        },
        "assumptions": crate::assumptions(&cfg.prop),
        "wall_s": wall,
        "violations": violations,
    });
    let c = ev["coverage"].as_object_mut().unwrap();
    if agg.scheds.is_empty() {
        // no callers to interleave in this check
        c.remove("distinct_interleavings");
        c.insert("interleaving_measure".into(), json!("one caller at a time; runs differ in their history of operations and faults"));
    }
    if edges == 0 {
        c.remove("edges_of_code_under_test");
        c.remove("edges_of_code_under_test_reached");
    }
    if agg.clock == 0 {
        c.remove("simulated_seconds");
        c.insert("simulated_time".into(), json!("no component of this check reads a clock; time is counted in operations"));
    }
    let dir = format!("{}/evidence", cfg.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}.json", cfg.prop);
    if std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("harness error: cannot write {path}");
        return 2;
    }
    println!(
        "{} runs ({} distinct non-trivial, {} interleavings), {} calls, {} steps, edges {}/{}, batch {:016x}, {:.1} s",
        agg.runs,
        agg.nontrivial.len(),
        agg.scheds.len(),
        agg.ctr.get(ctr::CALLS).copied().unwrap_or(0),
        agg.ctr.get(ctr::STEPS).copied().unwrap_or(0),
        edges,
        total,
        batch,
        wall
    );
    if agg.replay_diff > 0 {
        println!("note: {} of {} repeated runs differed", agg.replay_diff, agg.replayed);
    }
    if agg.runs == 0 && code == 0 {
        eprintln!("harness error: nothing was run");
        return 2;
    }
    code
}

/// Run it again: (plan, outcome, reproduced). None: set aside.
fn confirm(run: &mut Runner, f: &Found) -> Option<(Option<Plan>, Outcome, bool)> {
    let mut fake = Outcome { viol: Some(f.viol.clone()), ..Default::default() };
    let Some(plan) = &f.plan else { return Some((None, fake, true)) };
    for _ in 0..5 {
        let o = run.plan(plan);
        if o.viol.as_ref().is_some_and(|v| v.class == f.viol.class) {
            return Some((f.plan.clone(), o, true));
        }
    }
    if f.viol.class == "HANG" {
        return None;
    }
    fake.trace = vec!["the violation did not repeat in five attempts".into()];
    Some((f.plan.clone(), fake, false))
}

pub fn replay(path: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(path) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&s) else {
        eprintln!("cannot parse {path}");
        return 2;
    };
    let prop = j["property"].as_str().unwrap_or("?").to_string();
    let class = j["class"].as_str().unwrap_or("?").to_string();
    if j["plan"].is_null() {
        if class == "NOT_SHAREABLE" {
            let bad = camglue::exec::share_probe().into_iter().any(|x| !x.1);
            println!("{}", if bad { "reproduced" } else { "not reproduced" });
            return bad as i32;
        }
        let cfg = Cfg {
            prop: prop.clone(),
            seed: j["seed"].as_u64().unwrap_or(1),
            tier: "quick".into(),
            workers: 1,
            blocks: 0,
            secs: 1e9,
            verif: String::new(),
        };
        let mut run = Runner::new();
        let mut agg = Agg::default();
        run_block(&cfg, &mut run, j["block"].as_u64().unwrap_or(0), &mut agg, &|| false);
        return match agg.found {
            Some(f) => {
                println!("{}: {}", f.viol.class, f.viol.what);
                println!("VIOLATION property={prop} replay={path}");
                1
            }
            None => 0,
        };
    }
    let plan: Plan = match serde_json::from_value(j["plan"].clone()) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("cannot parse the plan: {e}");
            return 2;
        }
    };
    let mut run = Runner::new();
    let o = run.plan(&plan);
    if let Some(e) = o.harness_error {
        eprintln!("harness error: {e}");
        return 2;
    }
    for t in &o.trace {
        println!("  {t}");
    }
    match o.viol {
        Some(v) => {
            let same = format!("{:016x}", o.digest) == j["digest"].as_str().unwrap_or("");
            println!("{}: {}", v.class, v.what);
            println!("digest {:016x} ({})", o.digest, if same { "as recorded" } else { "differs from the recorded one" });
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("no violation (digest {:016x})", o.digest);
            0
        }
    }
}
