//! Deterministic simulation of programs that use cam-geom.
mod check;
mod gen;
mod known;
mod minimise;
mod modelcheck;
mod plan;
mod runner;
mod render;
mod scen;
mod selfcheck;
mod store;

use camglue::spec::*;
use plan::*;

#[global_allocator]
static A: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

impl runner::Runner {
    pub fn plan(&mut self, p: &Plan) -> Outcome {
        match p {
            Plan::Calls(c) => self.calls(c),
            Plan::Disk(d) => self.disk(d),
            Plan::Render(d) => self.render(d),
            Plan::Selfcheck(d) => self.selfcheck(d),
        }
    }
}

impl Plan {
    /// Simpler variants, for the minimiser.
    pub fn smaller(&self) -> Vec<Plan> {
        match self {
            Plan::Disk(d) => store::smaller(d).into_iter().map(Plan::Disk).collect(),
            Plan::Render(d) => render::smaller(d).into_iter().map(Plan::Render).collect(),
            Plan::Selfcheck(d) => selfcheck::smaller(d).into_iter().map(Plan::Selfcheck).collect(),
            _ => vec![],
        }
    }
}

pub fn describe(c: &Combo, how: How) -> String {
    let mut rows: Vec<String> = c.inp.rows.iter().take(4).map(|r| format!("({:?} {:?} {:?})", r[0].0, r[1].0, r[2].0)).collect();
    if c.inp.rows.len() > 4 {
        rows.push(format!("... {} rows", c.inp.rows.len()));
    }
    format!("{:?} on {:?} camera {:?} {:?} {:?}, input {:?} {} d={:?}", c.op, how, c.cam.num, c.cam.lens, c.cam.pose, c.inp.store, rows.join(" "), c.inp.d.0)
        .replace("F(", "(")
}

pub fn rule(prop: &str) -> String {
    let s = match prop {
        "C01" => "a run is one seeded interleaving of 2-5 callers on shared, fresh and cloned cameras; non-trivial if at least one caller was preempted inside a call; distinct by digest of schedule and results",
        "C02" => "a run stalls 1-3 callers at chosen steps inside calls while others go on; non-trivial if a stall took effect; distinct by digest of schedule and results",
        "C03" => "a run interrupts calls by panics of user code at chosen seams, with retries, concurrent and later calls; non-trivial if a panic was injected; distinct by digest",
        "C04" => "a run is a history of calls on confusable cameras and inputs with varied clock, environment, randomness, addresses and threads; non-trivial if it has more than one call; distinct by digest",
        "C09" => "a run refuses heap allocations inside calls; non-trivial if refusal was in force during at least one call; distinct by digest",
        "C10" => "a run repeats a few calls, failing, interrupted and varied ones included, and compares memory in use; non-trivial if it has at least 400 calls; distinct by digest",
        "C11" => "a run calls cameras with user-supplied lens models, faults of the model included; non-trivial if the model was consulted; distinct by digest",
        "C05" => "a run saves 1-5 objects in various formats through split and interrupted transfers, with restarts and power failures, and loads them back; non-trivial if something was loaded after a restart; distinct by digest",
        "C06" => "a run damages saved data (structure or bytes, cut, torn, spliced) and loads them; non-trivial if damage was done; distinct by digest",
        "C07" => "a run lets reads, writes or format events fail during saves and loads and retries; non-trivial if a fault struck; distinct by digest",
        "C08" => "a run is a history of saves, loads and re-saves by the working tree and by release 0.15.3 sharing files; non-trivial if something was loaded; distinct by digest",
        "C12" => "a run is a history of 2-40 self-checks, nested ones included, of simulated lens models that are sound, within or beyond the tolerance at one pixel, invalid or panicking; non-trivial if a model misbehaved; distinct by digest",
        "C13" => "a run starts the drawing example 1-4 times in one directory of the simulated file system with seeded errors, short, torn and interrupted writes, full disks and power failures; non-trivial if a fault struck; distinct by digest",
        _ => "see DESIGN.md",
    };
    s.into()
}
pub fn real(prop: &str) -> Vec<&'static str> {
    if ["C05", "C06", "C07", "C08"].contains(&prop) {
        return vec!["cam-geom (the working tree of /repo) with serde", "nalgebra", "serde, serde_json, bincode, ciborium, ron", "real processes, forked and ended"];
    }
    if prop == "C13" {
        return vec!["examples/render-cube.rs of the working tree, unchanged", "cam-geom (the working tree of /repo)", "nalgebra and the standard library"];
    }
    if prop == "C12" {
        return vec!["cam-geom (the working tree of /repo): self-check, ray bundles and the built-in lens models under the simulated ones", "nalgebra", "approx"];
    }
    vec!["cam-geom (the working tree of /repo, instrumented at compile time)", "nalgebra, simba and the standard library as cam-geom uses them"]
}
pub fn stubs(prop: &str) -> Vec<&'static str> {
    if ["C05", "C06", "C07", "C08"].contains(&prop) {
        return vec!["disk (files, reader, writer)", "process restarts and power failures", "one of the six formats", "release 0.15.3 (frozen copy of its sources)"];
    }
    if prop == "C13" {
        return vec!["file system (open, write, seek, sync, truncate, rename, close)"];
    }
    if prop == "C12" {
        return vec!["lens models with faults (user code)"];
    }
    vec!["thread scheduler", "futex waits and wakes", "clocks and sleeps", "random source", "environment variables and processor count", "heap (addresses, reuse, refusal)", "user code: number type, point storage, lens models, serialization format"]
}
pub fn assumptions(prop: &str) -> Vec<&'static str> {
    if ["C05", "C06", "C07", "C08"].contains(&prop) {
        return vec!["the formats themselves (serde_json with float_roundtrip, bincode, ciborium, ron) are correct", "sampling, not enumeration"];
    }
    if prop == "C13" {
        return vec!["what write() has accepted reaches the file: losses reported by close() alone or after it are out of scope", "sampling, not enumeration"];
    }
    if prop == "C12" {
        return vec!["models within 7% of the tolerance are not judged", "sampling, not enumeration"];
    }
    vec!["sequentially consistent memory: interleavings are explored, weak-memory reorderings are not", "sampling, not enumeration"]
}

/// Short words in the sources of the code under test: what an environment variable might hold.
fn env_words() -> Vec<Vec<u8>> {
    let mut files: Vec<_> = std::fs::read_dir(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src"))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let mut v = vec![];
    for f in files {
        for line in std::fs::read_to_string(f).unwrap_or_default().lines() {
            if line.trim_start().starts_with("//") || line.contains("feature = ") {
                continue;
            }
            for w in line.split('"').skip(1).step_by(2) {
                if (1..=20).contains(&w.len()) && w.bytes().all(|b| b.is_ascii_alphanumeric() || b"_-.:+".contains(&b)) {
                    let w = [w.as_bytes(), b"\0"].concat();
                    if !v.contains(&w) {
                        v.push(w);
                    }
                }
            }
        }
    }
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    unsafe {
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    simcore::alloc::reserve();
    unsafe { simcore::interpose::ENV_WORDS = env_words() };
    simcore::world::prepare();
    std::panic::set_hook(Box::new(|i| {
        if simcore::engine::managed().is_none() {
            eprintln!("harness panic: {i}");
        }
    }));
    let env = |k: &str| std::env::var(k).ok();
    let verif = env("VERIF_DIR").unwrap_or_else(|| "/verif".into());
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a.get(2).cloned().unwrap_or_default();
            let tier = a.get(3).cloned().or(env("VERIF_TIER")).unwrap_or_else(|| "quick".into());
            let (_, blocks, secs) = check::size(&prop, &tier);
            let cfg = check::Cfg {
                prop,
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                workers: env("VERIF_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
                blocks: env("VERIF_BLOCKS").and_then(|s| s.parse().ok()).unwrap_or(blocks),
                secs: env("VERIF_SECS").and_then(|s| s.parse().ok()).unwrap_or(secs),
                tier,
                verif,
            };
            std::process::exit(check::check(&cfg));
        }
        Some("replay") => std::process::exit(check::replay(a.get(2).map_or("", |s| s))),
        _ => {
            eprintln!("usage: camsim check PROPERTY [TIER] | replay FILE");
            std::process::exit(2);
        }
    }
}
