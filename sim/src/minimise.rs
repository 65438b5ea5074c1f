//! Shrinks a violating plan while the class of the violation stays the same.
use crate::plan::*;
use crate::runner::Runner;
use camglue::spec::*;
use simcore::raw;

struct M<'a> {
    run: &'a mut Runner,
    best: Plan,
    out: Outcome,
    class: String,
    end: u64,
    left: u32,
}

impl M<'_> {
    fn over(&self) -> bool {
        self.left == 0 || raw::real_ns() > self.end
    }
    fn try_(&mut self, p: Plan) -> bool {
        if self.over() || p == self.best {
            return false;
        }
        self.left -= 1;
        let o = self.run.plan(&p);
        if o.harness_error.is_none() && o.viol.as_ref().is_some_and(|v| v.class == self.class) {
            self.best = p;
            self.out = o;
            return true;
        }
        false
    }
}

pub fn minimise(run: &mut Runner, plan: Plan, out: Outcome, secs: f64) -> (Plan, Outcome) {
    let class = out.viol.as_ref().unwrap().class.clone();
    let end = raw::real_ns() + (secs * 1e9) as u64;
    let mut m = M { run, best: plan, out, class, end, left: 3000 };
    loop {
        let before = m.best.clone();
        match m.best.clone() {
            Plan::Calls(_) => calls(&mut m),
            _ => other(&mut m),
        }
        if m.best == before || m.over() {
            break;
        }
    }
    if let Plan::Calls(c) = &m.best {
        let g = gc(c);
        m.try_(Plan::Calls(g));
    }
    (m.best, m.out)
}

fn other(m: &mut M) {
    loop {
        let mut hit = false;
        for c in m.best.clone().smaller() {
            if m.try_(c) {
                hit = true;
                break;
            }
            if m.over() {
                return;
            }
        }
        if !hit {
            return;
        }
    }
}

fn cur(m: &M) -> Calls {
    match &m.best {
        Plan::Calls(c) => c.clone(),
        _ => unreachable!(),
    }
}

fn drop_caller(c: &Calls, t: usize) -> Calls {
    let mut d = c.clone();
    let n = c.progs.len();
    d.progs.remove(t);
    if t < d.evs.len() {
        d.evs.remove(t);
    }
    if t < d.reps.len() {
        d.reps.remove(t);
    }
    if d.audit && t == n - 1 {
        d.audit = false;
    }
    if d.first > t {
        d.first -= 1;
    }
    d.first = d.first.min(n - 2);
    for it in d.progs.iter_mut().flatten() {
        if it.sw as usize == t + 1 {
            it.sw = 0;
        } else if it.sw as usize > t + 1 {
            it.sw -= 1;
        }
    }
    d
}

fn drop_items(c: &Calls, t: usize, a: usize, b: usize) -> Calls {
    let mut d = c.clone();
    d.progs[t].drain(a..b);
    if let Some(e) = d.evs.get_mut(t) {
        e.retain(|e| !(a..b).contains(&(e.op as usize)));
        for x in e.iter_mut() {
            if x.op as usize >= b {
                x.op -= (b - a) as u32;
            }
        }
    }
    d
}

fn calls(m: &mut M) {
    // callers
    let mut t = 0;
    while t < cur(m).progs.len() {
        let c = cur(m);
        if c.progs.len() > 1 && m.try_(Plan::Calls(drop_caller(&c, t))) {
            continue;
        }
        t += 1;
    }
    // repetitions
    for t in 0..cur(m).progs.len() {
        loop {
            let c = cur(m);
            let r = c.rep(t);
            if r <= 1 {
                break;
            }
            let mut d = c.clone();
            d.reps = (0..c.progs.len()).map(|i| c.rep(i)).collect();
            d.reps[t] = if r > 2 { r - r / 3 } else { 1 };
            if !m.try_(Plan::Calls(d)) {
                break;
            }
        }
    }
    // items
    for t in 0..cur(m).progs.len() {
        let mut chunk = cur(m).progs[t].len().div_ceil(2).max(1);
        loop {
            let mut a = 0;
            while a < cur(m).progs[t].len() {
                let c = cur(m);
                let b = (a + chunk).min(c.progs[t].len());
                if b - a == c.progs[t].len() || !m.try_(Plan::Calls(drop_items(&c, t, a, b))) {
                    a = b;
                }
                if m.over() {
                    return;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
    // events
    for t in 0..cur(m).evs.len() {
        let mut i = 0;
        while i < cur(m).evs[t].len() {
            let mut c = cur(m);
            c.evs[t].remove(i);
            if !m.try_(Plan::Calls(c)) {
                i += 1;
            }
        }
    }
    // faults and attributes of single calls
    for t in 0..cur(m).progs.len() {
        for i in 0..cur(m).progs[t].len().min(60) {
            for f in 0..8 {
                let mut c = cur(m);
                let it = &mut c.progs[t][i];
                match f {
                    0 => it.panic_at = None,
                    1 => it.deny = None,
                    2 => it.reenter = None,
                    3 => it.vary = 0,
                    4 => it.sw = 0,
                    5 => it.keep = 0,
                    6 => it.unwind = false,
                    _ => it.how = HowJ(How::Shared),
                }
                m.try_(Plan::Calls(c));
                if m.over() {
                    return;
                }
            }
        }
    }
    for f in 0..5 {
        let mut c = cur(m);
        match f {
            4 => c.scarce = false,
            0 => c.env_seed = 0,
            1 => c.addr_seed = 0,
            2 => c.quantum = 1 << 40,
            _ => c.first = 0,
        }
        m.try_(Plan::Calls(c));
    }
    let g = gc(&cur(m));
    m.try_(Plan::Calls(g));
    // inputs
    for k in 0..cur(m).combos.len() {
        let mut chunk = cur(m).combos[k].inp.rows.len().div_ceil(2);
        while chunk > 0 {
            let mut a = 0;
            loop {
                let mut c = cur(m);
                let inp = &mut c.combos[k].inp;
                if inp.store.rows().is_some() || a + chunk > inp.rows.len() || inp.rows.len() <= 1 {
                    break;
                }
                inp.rows.drain(a..a + chunk);
                if !m.try_(Plan::Calls(c)) {
                    a += chunk;
                }
                if m.over() {
                    return;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
    }
}

/// Remove combinations nobody uses.
fn gc(c: &Calls) -> Calls {
    let mut d = c.clone();
    let mut used = vec![false; c.combos.len()];
    for it in c.progs.iter().flatten() {
        used[it.combo] = true;
        if let Some((_, k)) = it.reenter {
            used[k] = true;
        }
    }
    let mut map = vec![0; used.len()];
    d.combos.clear();
    for (i, u) in used.iter().enumerate() {
        if *u {
            map[i] = d.combos.len();
            d.combos.push(c.combos[i].clone());
        }
    }
    for it in d.progs.iter_mut().flatten() {
        it.combo = map[it.combo];
        if let Some((_, k)) = &mut it.reenter {
            *k = map[*k];
        }
    }
    d
}
