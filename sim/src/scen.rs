//! Scenario generation for the properties about calls (C01-C04, C09-C11).
use crate::gen::{self, Taste, OPW};
use crate::plan::*;
use crate::runner::{Ref, Runner};
use camglue::spec::*;
use simcore::rng::Rng;
use simcore::shared::st;

pub struct Universe {
    pub combos: Vec<Combo>,
    pub refs: Vec<Ref>,
    /// the first `main` combos are the workload, the rest re-read every camera
    pub main: usize,
    pub big: bool,
}

fn taste(prop: &str, r: &mut Rng) -> Taste {
    let mut t = Taste { ops: OPW, cams: 1 + r.usize(6), combos: 24, users: false, num: [6, 2, 3], big: false };
    match prop {
        "C02" | "C01" => t.users = r.chance(0.3),
        "C03" => {
            t.num = [2, 0, 8];
            t.users = r.chance(0.6);
            t.ops[14] = 2;
            t.ops[15] = 4;
        }
        "C04" => {
            t.users = r.chance(0.2);
            if r.chance(0.3) {
                t.combos = 64;
                t.cams = 8 + r.usize(24);
            }
        }
        "C09" => {
            t.num = [6, 3, 2];
            t.ops[14] = 0;
            t.ops[15] = 0;
            t.ops[16] = 0;
            t.ops[12] = 1;
        }
        "C10" => {
            t.cams = 1 + r.usize(3);
            t.users = r.chance(0.3);
            t.num = [6, 2, 3];
            t.ops[15] = 12;
            t.ops[12] = 6;
        }
        "C11" => {
            t.users = true;
            t.ops = [14, 14, 2, 2, 3, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0, 0, 0, 3];
        }
        _ => {}
    }
    if ["C01", "C02", "C03", "C04"].contains(&prop) && r.chance(if prop == "C04" { 0.12 } else { 0.07 }) {
        t.big = true;
        t.cams = t.cams.min(4);
        t.combos = 8;
        t.ops[15] = 0;
        t.ops[16] = 0;
        t.ops[12] = 4;
    }
    t
}

pub fn universe(prop: &str, r: &mut Rng, run: &mut Runner) -> Result<Universe, Viol> {
    let t = taste(prop, r);
    let mut combos = gen::universe(r, &t);
    if prop == "C11" {
        for c in &mut combos {
            if !matches!(c.cam.lens, Lens::UserO(..) | Lens::UserD(..)) && r.chance(0.9) {
                let k = [F(r.uni(1.0, 300.0)), F(r.uni(0.0, 900.0)), F(r.uni(1.0, 300.0)), F(r.uni(0.0, 900.0))];
                let b = if r.chance(0.3) { 1 + r.usize(4) as u8 } else { 0 };
                c.cam.lens = if r.chance(0.6) { Lens::UserO(k, b, 3) } else { Lens::UserD(k, b, 5) };
                if c.cam.num == Num::F32 {
                    c.cam.num = Num::F64;
                }
                if let Pose::Pmat(_) = c.cam.pose {
                    c.cam.pose = Pose::Rot(gen::quat(r), gen::vec3(r));
                }
            }
            // batches around the sizes at which work might be divided
            if c.inp.store.rows().is_none() && r.chance(0.25) && matches!(c.op, Op::WorldToPixel | Op::PixelToWorld | Op::BundleUse) {
                let base = *r.pick(&[8usize, 16, 32, 64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096, 5000]);
                let n = base + r.usize(3) - 1;
                if r.chance(0.5) || n < 300 {
                    c.inp.rows = gen::rows(r, n);
                }
            }
        }
    }
    let main = combos.len();
    let mut specs: Vec<CamSpec> = vec![];
    for c in &combos {
        if !specs.contains(&c.cam) {
            specs.push(c.cam.clone());
        }
    }
    for s in specs.iter().take(12) {
        let inp = Inp { store: Store::Fixed1, rows: vec![[F(0.3), F(0.7), F(4.0)]], d: F(1.0) };
        for op in [Op::Getters, Op::CloneEq, Op::WorldToPixel, Op::PixelToWorld] {
            combos.push(Combo { cam: s.clone(), op, inp: inp.clone() });
        }
    }
    let mut refs = vec![];
    let mut keep = vec![];
    let mut m = 0;
    for (i, c) in combos.iter().enumerate() {
        let rf = run.reference(c);
        if let Some(b) = &rf.broken {
            return Err(Viol { class: "ALONE".into(), what: format!("{b}: {}", crate::describe(c, How::Fresh)) });
        }
        if rf.usable {
            if i < main {
                m += 1;
            }
            refs.push(rf);
            keep.push(c.clone());
        }
    }
    Ok(Universe { combos: keep, refs, main: m, big: t.big })
}

/// A plan that uses a subset of a universe; combos are renumbered.
struct B<'a> {
    u: &'a Universe,
    map: Vec<Option<usize>>,
    combos: Vec<Combo>,
    src: Vec<usize>,
}
impl<'a> B<'a> {
    fn new(u: &'a Universe) -> B<'a> {
        B { u, map: vec![None; u.combos.len()], combos: vec![], src: vec![] }
    }
    fn c(&mut self, i: usize) -> usize {
        if let Some(k) = self.map[i] {
            return k;
        }
        let k = self.combos.len();
        self.combos.push(self.u.combos[i].clone());
        self.src.push(i);
        self.map[i] = Some(k);
        k
    }
}

fn how(r: &mut Rng, w: [u32; 3]) -> HowJ {
    HowJ([How::Shared, How::Fresh, How::Clone][r.weighted(&w)])
}

fn step_in(r: &mut Rng, rf: &Ref, h: How) -> u64 {
    let solo = rf.solo(h).max(1);
    let hot = rf.hot(h);
    if !hot.is_empty() && r.chance(0.6) {
        let b = *r.pick(&hot) as i64;
        return (b + r.range(-2, 4)).max(1) as u64;
    }
    match r.usize(8) {
        0 => 1 + r.below(40.min(solo)),
        1 => solo - r.below(40.min(solo)),
        _ => 1 + r.below(solo),
    }
}

/// A working set: some calls, biased towards calls that are easily confused.
fn work_set(r: &mut Rng, u: &Universe, max: usize) -> Vec<usize> {
    let k = 1 + r.usize(max.min(u.main));
    let mut v = vec![r.usize(u.main)];
    while v.len() < k {
        let i = if r.chance(0.5) {
            // same operation as one already chosen
            let o = u.combos[v[0]].op;
            let c: Vec<usize> = (0..u.main).filter(|&i| u.combos[i].op == o).collect();
            *r.pick(&c)
        } else {
            r.usize(u.main)
        };
        if !v.contains(&i) {
            v.push(i);
        } else if r.chance(0.3) {
            break;
        }
    }
    v
}

fn audit_items(r: &mut Rng, b: &mut B, fresh: bool) -> Vec<Item> {
    let mut v = vec![];
    let how = HowJ(if fresh { How::Fresh } else { How::Shared });
    let cams: Vec<CamSpec> = b.combos.iter().map(|c| c.cam.clone()).collect();
    for i in b.u.main..b.u.combos.len() {
        if cams.contains(&b.u.combos[i].cam) && r.chance(0.8) {
            let c = b.c(i);
            v.push(Item { combo: c, how, ..Default::default() });
        }
    }
    for i in 0..b.src.len().min(10) {
        v.push(Item { combo: i, how, ..Default::default() });
    }
    v
}

fn base(r: &mut Rng) -> Calls {
    Calls {
        quantum: *r.pick(&[500, 2000, 10_000, 50_000, 1_000_000]),
        env_seed: r.next() >> 16,
        addr_seed: r.next() >> 40,
        ..Default::default()
    }
}

pub fn plan(prop: &str, r: &mut Rng, u: &Universe) -> Calls {
    let mut p = calls(prop, r, u);
    for it in p.progs.iter_mut().flatten() {
        // (nothing else is injected while a caller unwinds)
        it.unwind &= it.panic_at.is_none() && it.reenter.is_none() && it.deny.is_none() && it.vary == 0;
    }
    p
}

fn calls(prop: &str, r: &mut Rng, u: &Universe) -> Calls {
    match prop {
        "C01" => concurrent(r, u, 0),
        "C02" => concurrent(r, u, 1),
        "C03" => panics(r, u),
        "C04" => history(r, u),
        "C09" => denial(r, u),
        "C10" => leaks(r, u),
        "C11" => model(r, u),
        _ => unreachable!(),
    }
}

fn pick_item(r: &mut Rng, b: &mut B, ws: &[usize], w: [u32; 3]) -> (Item, usize) {
    let i = *r.pick(ws);
    let mut it = Item { combo: b.c(i), how: how(r, w), ..Default::default() };
    if it.how.0 != How::Shared && r.chance(0.25) {
        it.keep = 1 + r.usize(3) as u8;
    }
    if r.chance(0.06) {
        it.unwind = true;
    } else if r.chance(0.1) && b.u.refs[i].seams(it.how.0) > 0 {
        // user code that calls back in
        let k = r.below(b.u.refs[i].seams(it.how.0));
        let j = *r.pick(ws);
        it.reenter = Some((k, b.c(j)));
    }
    (it, i)
}

fn concurrent(r: &mut Rng, u: &Universe, stall: u8) -> Calls {
    let mut p = base(r);
    let mut b = B::new(u);
    let n = 2 + r.usize(4);
    let ws = work_set(r, u, 6);
    let w = *r.pick(&[[10, 0, 0], [6, 3, 2], [4, 6, 1], [0, 1, 0], [2, 1, 4]]);
    let mut items: Vec<Vec<(usize, How)>> = vec![];
    for _ in 0..n {
        let most = if u.big { 2 } else if r.chance(0.3) { 12 } else { 4 };
        let m = 1 + r.usize(most);
        let mut v = vec![];
        let mut k = vec![];
        for _ in 0..m {
            let (it, i) = pick_item(r, &mut b, &ws, w);
            k.push((i, it.how.0));
            v.push(it);
        }
        p.progs.push(v);
        items.push(k);
    }
    p.evs = vec![vec![]; n];
    let most = if stall == 1 {
        3
    } else if r.chance(0.3) {
        30
    } else {
        8
    };
    let ne = 1 + r.usize(most);
    for _ in 0..ne {
        let t = r.usize(n);
        let op = if r.chance(0.4) { 0 } else { r.usize(items[t].len()) };
        let (i, h) = items[t][op];
        p.evs[t].push(EvJ { op: op as u32, step: step_in(r, &u.refs[i], h), act: stall, arg: r.usize(8) as u8 });
    }
    if stall == 1 {
        for _ in 0..r.usize(6) {
            let t = r.usize(n);
            let op = r.usize(items[t].len());
            let (i, h) = items[t][op];
            p.evs[t].push(EvJ { op: op as u32, step: step_in(r, &u.refs[i], h), act: 0, arg: r.usize(8) as u8 });
        }
    }
    p.first = r.usize(n);
    if stall == 0 && !u.big && r.chance(0.06) {
        // many hand-overs, over a long time
        let one: u64 = items.iter().flatten().map(|(i, h)| u.refs[*i].solo(*h).max(50) + 100).sum();
        let reps = (*r.pick(&[300_000u64, 1_500_000, 1_500_000, 4_000_000]) / one).clamp(2, 400) as u32;
        p.reps = vec![reps; n];
        p.quantum = *r.pick(&[100, 150, 230, 400, 900, 3000]);
    } else if stall == 0 && !u.big && r.chance(0.08) {
        // one caller is away in the middle of a call while the others make very many
        p.quantum = 1 << 40;
        let t = p.first;
        for (k, v) in items.iter().enumerate() {
            if k != t {
                p.evs[k].clear();
            }
            let one: u64 = v.iter().map(|(i, h)| u.refs[*i].solo(*h).max(50) + 100).sum();
            let most = *r.pick(&[20_000u64, 100_000, 400_000, 1_000_000]);
            p.reps.push(if k == t { 1 } else { (most / one).clamp(1, 5000) as u32 });
        }
        let m = 1 + r.usize(3);
        p.evs[t].truncate(0);
        for _ in 0..m {
            let op = r.usize(items[t].len());
            let (i, h) = items[t][op];
            p.evs[t].push(EvJ { op: op as u32, step: step_in(r, &u.refs[i], h), act: 0, arg: r.usize(8) as u8 });
        }
    }
    if n < 6 && r.chance(0.4) {
        p.progs.push(audit_items(r, &mut b, w == [0, 1, 0]));
        p.audit = true;
    }
    p.combos = b.combos;
    p
}

fn panics(r: &mut Rng, u: &Universe) -> Calls {
    let mut p = base(r);
    let mut b = B::new(u);
    let n = 1 + r.usize(4);
    let ws = work_set(r, u, 6);
    let w = *r.pick(&[[10, 0, 0], [6, 3, 2], [2, 6, 1], [0, 1, 0]]);
    p.evs = vec![vec![]; n];
    // one plan in seven: the same interruption so often that counters and tables of any kind fill up
    let often = if r.chance(0.14) {
        Some(match r.usize(10) {
            0..=2 => 8 + r.usize(34),
            3..=5 => 60 + r.usize(12),
            6 | 7 => 100 + r.usize(200),
            8 => 250 + r.usize(20),
            _ => 1000 + r.usize(100),
        })
    } else {
        None
    };
    let mut left = 3_000_000u64;
    for t in 0..n {
        let m = 1 + r.usize(if u.big { 3 } else { 6 });
        let mut v = vec![];
        for _ in 0..m {
            let (mut it, i) = pick_item(r, &mut b, &ws, w);
            let s = u.refs[i].seams(it.how.0);
            if s > 0 && r.chance(0.7) {
                let k = match r.usize(6) {
                    0 => s - 1,
                    1 => 0,
                    _ => r.below(s),
                };
                it.panic_at = Some(k);
                it.reenter = None;
                if r.chance(0.4) {
                    p.evs[t].push(EvJ { op: v.len() as u32, step: step_in(r, &u.refs[i], it.how.0), act: 0, arg: r.usize(8) as u8 });
                }
                let retry = Item { combo: it.combo, how: it.how, ..Default::default() };
                if let Some(o) = often {
                    let each = u.refs[i].solo(it.how.0).max(50) + 400;
                    let k = (o as u64).min(left / each);
                    left -= k * each;
                    for _ in 0..k {
                        let mut again = it.clone();
                        if r.chance(0.3) {
                            again.panic_at = Some(r.below(s));
                        }
                        v.push(again);
                    }
                } else if r.chance(0.15) {
                    // interrupted again and again
                    for _ in 0..r.usize(4) {
                        v.push(it.clone());
                    }
                }
                v.push(it);
                if r.chance(0.8) {
                    v.push(retry);
                }
            } else {
                v.push(it);
            }
        }
        p.progs.push(v);
    }
    for _ in 0..r.usize(5) {
        let t = r.usize(n);
        let op = r.usize(p.progs[t].len());
        let c = p.progs[t][op].clone();
        let i = b.src[c.combo];
        p.evs[t].push(EvJ { op: op as u32, step: step_in(r, &u.refs[i], c.how.0), act: 0, arg: r.usize(8) as u8 });
    }
    p.first = r.usize(n);
    if r.chance(0.7) {
        p.progs.push(audit_items(r, &mut b, w == [0, 1, 0]));
        p.audit = true;
    }
    p.combos = b.combos;
    p
}

fn history(r: &mut Rng, u: &Universe) -> Calls {
    let mut p = base(r);
    let mut b = B::new(u);
    p.quantum = 1 << 40;
    p.scarce = r.chance(0.5);
    let kind = r.weighted(if u.big { &[0, 40, 3, 0] } else { &[12, 30, 4, 1] });
    let wide = if r.chance(0.3) { u.main } else { 1 + r.usize(6) };
    let ws = work_set(r, u, wide);
    let w = *r.pick(&[[10, 0, 0], [6, 3, 2], [1, 6, 1], [0, 1, 0], [2, 1, 4]]);
    let n = if kind >= 2 { 1 } else { 1 + r.usize(3) };
    for _ in 0..n {
        let m = match kind {
            0 => 100 + r.usize(400),
            1 => 2 + r.usize(if u.big { 12 } else { 40 }),
            _ => 1 + r.usize(3),
        };
        let mut v: Vec<Item> = vec![];
        while v.len() < m {
            let (mut it, i) = pick_item(r, &mut b, &ws, w);
            it.reenter = None;
            if n > 1 && r.chance(0.5) {
                it.sw = 1 + r.usize(n) as u8;
            }
            if kind < 2 && r.chance(0.05) {
                // failing calls are part of history
                let s = u.refs[i].seams(it.how.0);
                if s > 0 {
                    it.panic_at = Some(r.below(s));
                }
            }
            if kind < 2 && r.chance(0.06) {
                // a caller that moves on to other cameras all the time
                it.vary = 1 + r.usize(3000) as u32;
                it.panic_at = None;
            }
            if kind == 0 && r.chance(0.1) {
                // the same call many times over
                for _ in 0..r.usize(40) {
                    v.push(it.clone());
                }
            }
            v.push(it);
        }
        p.progs.push(v);
    }
    if kind >= 2 {
        // a history long enough for counters of 16 bits to run over
        let steps: u64 = p.progs[0]
            .iter()
            .map(|it| u.refs[b.src[it.combo]].solo(it.how.0).max(50) + 100)
            .sum();
        let target = if kind == 2 { 3_000_000 } else { 150_000_000 };
        let calls = if kind == 2 { 5000 } else { 140_000 };
        let reps = (target / steps).min(calls / p.progs[0].len() as u64).max(2);
        p.reps = vec![reps as u32];
    }
    p.first = r.usize(n);
    p.combos = b.combos;
    p
}

fn denial(r: &mut Rng, u: &Universe) -> Calls {
    let mut p = base(r);
    let mut b = B::new(u);
    let n = if r.chance(0.7) { 1 } else { 2 };
    let ws = work_set(r, u, 8);
    p.evs = vec![vec![]; n];
    for t in 0..n {
        let m = 1 + r.usize(10);
        let mut v = vec![];
        for k in 0..m {
            let i = *r.pick(&ws);
            let c = &u.combos[i];
            let rf = &u.refs[i];
            let h = how(r, [4, 4, 2]);
            let mut it = Item { combo: b.c(i), how: h, ..Default::default() };
            let fixed = c.fixed() && rf.res.status == st::DONE;
            if fixed {
                if r.chance(0.9) {
                    it.deny = Some(if r.chance(0.9) { 0 } else { r.below(4) });
                }
            } else if t == 0 && k + 1 == m && rf.res.status == st::DONE {
                // ends the process: only as the last call
                it.deny = Some(r.below(rf.res.allocs + 2));
            }
            if n > 1 && r.chance(0.5) {
                p.evs[t].push(EvJ { op: k as u32, step: step_in(r, rf, h.0), act: 0, arg: 0 });
            }
            v.push(it);
        }
        p.progs.push(v);
    }
    p.first = r.usize(n);
    p.combos = b.combos;
    p
}

fn leaks(r: &mut Rng, u: &Universe) -> Calls {
    let mut p = base(r);
    p.quantum = 1 << 40;
    p.leak = true;
    let mut b = B::new(u);
    let ws = work_set(r, u, 3);
    let m = 1 + r.usize(3);
    let w = *r.pick(&[[10, 0, 0], [0, 1, 0], [0, 0, 1], [3, 3, 3]]);
    let vary = r.chance(0.45);
    let mut v = vec![];
    let mut steps = 0;
    for _ in 0..m {
        let (mut it, i) = pick_item(r, &mut b, &ws, w);
        it.reenter = None;
        if vary {
            it.vary = 1 + r.usize(2000) as u32;
        }
        let h = if vary { How::Fresh } else { it.how.0 };
        let s = u.refs[i].seams(h);
        if s > 0 && r.chance(0.5) {
            it.panic_at = Some(r.below(s));
        }
        steps += u.refs[i].solo(h).max(50) + 300;
        v.push(it);
    }
    let target = 40_000_000u64;
    let reps = (target / steps).clamp(200, 20_000 / m as u64);
    p.progs = vec![v];
    p.reps = vec![reps as u32];
    p.combos = b.combos;
    p
}

fn model(r: &mut Rng, u: &Universe) -> Calls {
    let mut p = base(r);
    p.model_log = true;
    let mut b = B::new(u);
    let n = if r.chance(0.6) { 1 } else { 2 + r.usize(2) };
    let ws = work_set(r, u, 5);
    let w = *r.pick(&[[10, 0, 0], [6, 3, 2], [2, 6, 1], [0, 1, 0]]);
    p.evs = vec![vec![]; n];
    for t in 0..n {
        let m = 1 + r.usize(6);
        let mut v = vec![];
        for k in 0..m {
            let (mut it, i) = pick_item(r, &mut b, &ws, w);
            let s = u.refs[i].seams(it.how.0);
            if it.reenter.is_none() && s > 0 && r.chance(0.2) {
                it.reenter = Some((r.below(s), b.c(*r.pick(&ws))));
            }
            let faulty = it.reenter.is_none() && s > 0 && r.chance(0.2);
            if faulty {
                it.panic_at = Some(r.below(s));
            }
            if n > 1 && r.chance(0.6) {
                p.evs[t].push(EvJ { op: k as u32, step: step_in(r, &u.refs[i], it.how.0), act: 0, arg: r.usize(4) as u8 });
            }
            let retry = Item { combo: it.combo, how: it.how, ..Default::default() };
            v.push(it);
            if faulty && r.chance(0.7) {
                v.push(retry);
            }
        }
        p.progs.push(v);
    }
    p.first = r.usize(n);
    if r.chance(0.3) {
        p.progs.push(audit_items(r, &mut b, w == [0, 1, 0]));
        p.audit = true;
    }
    p.combos = b.combos;
    p
}
