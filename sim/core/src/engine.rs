//! The scheduler. Simulated callers are real threads of which exactly one runs at any time; who
//! runs next, who stalls and where a fault strikes is decided here and only here, from the plan of
//! the run. Decisions are taken at *ticks*: every basic block, load and store of the code under
//! test and every call into user-supplied code.
use crate::raw;
use crate::rng::mix;
use crate::shared::*;
use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXEV: usize = 96;
pub const STACK: usize = 1 << 20;
pub const STACK_BASE: usize = 0x2100_0000_0000;

pub const NEVER: u64 = u64::MAX;

/// What the plan wants to happen when caller `tid` reaches tick `step` of its call number `op`.
#[derive(Clone, Copy, Debug, Default)]
pub struct Ev {
    pub op: u32,
    pub step: u64,
    pub act: u8, // 0: switch to another caller, 1: stall
    pub arg: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum S {
    Unused,
    Ready,
    Blocked,
    Stalled,
    /// waits until everybody else is done
    Last,
    Done,
}

/// Faults of one call.
#[derive(Clone, Copy, Debug)]
pub struct OpCfg {
    pub budget: u64,
    pub panic_at: u64,
    pub deny_from: u64,
    pub reenter_at: u64,
}

impl Default for OpCfg {
    fn default() -> Self {
        OpCfg { budget: 50_000_000, panic_at: NEVER, deny_from: NEVER, reenter_at: NEVER }
    }
}

pub struct Thr {
    pub id: usize,
    pub state: S,
    word: AtomicU32,
    waddr: usize,
    deadline: u64,
    timed_out: bool,
    pub in_call: u32,
    pub sim: u32,
    pub op: u32,
    pub step: u64,
    next: u64,
    qstart: u64,
    pub cfg: OpCfg,
    evs: [Ev; MAXEV],
    nev: usize,
    evi: usize,
    pub seam: u64,
    pub allocs: u64,
    pub total: u64,
    pub res: OpRes,
    pub injected: bool,
    depth: u32,
    /// The caller on whose behalf this thread runs: itself, or the one that started the thread.
    pub owner: usize,
    pth: libc::pthread_t,
    start: Option<extern "C" fn(*mut libc::c_void) -> *mut libc::c_void>,
    arg: *mut libc::c_void,
    dtors: [(usize, usize); 8],
    ndtors: usize,
}

/// Callers and the threads they start.
pub const MAXALL: usize = 40;

impl Thr {
    const fn new() -> Thr {
        Thr {
            id: 0,
            state: S::Unused,
            word: AtomicU32::new(0),
            waddr: 0,
            deadline: NEVER,
            timed_out: false,
            in_call: 0,
            sim: 0,
            op: 0,
            step: 0,
            next: NEVER,
            qstart: 0,
            cfg: OpCfg { budget: NEVER, panic_at: NEVER, deny_from: NEVER, reenter_at: NEVER },
            evs: [Ev { op: 0, step: 0, act: 0, arg: 0 }; MAXEV],
            nev: 0,
            evi: 0,
            seam: 0,
            allocs: 0,
            total: 0,
            res: OpRes::ZERO,
            injected: false,
            depth: 0,
            owner: 0,
            pth: 0,
            start: None,
            arg: core::ptr::null_mut(),
            dtors: [(0, 0); 8],
            ndtors: 0,
        }
    }
}

pub struct Glob {
    pub thr: [Thr; MAXALL],
    /// threads in use: the callers and what they started
    pub n: usize,
    pub callers: usize,
    /// threads nobody manages were started
    pub foreign: bool,
    spawned: u64,
    pub cur: usize,
    pub rec: *mut Rec,
    pub clock: u64,
    pub quantum: u64,
    pub env_seed: u64,
    pub env_ctr: u64,
    pub wall_skew: i64,
    /// threads may be refused, terminals gone
    pub scarce: bool,
    pub reenter: Option<fn(usize)>,
    done: AtomicU32,
    lo: usize,
    hi: usize,
}

pub static mut G: Glob = Glob {
    thr: [const { Thr::new() }; MAXALL],
    n: 0,
    callers: 0,
    foreign: false,
    spawned: 0,
    cur: 0,
    rec: core::ptr::null_mut(),
    clock: 0,
    quantum: 20_000,
    env_seed: 0,
    env_ctr: 0,
    wall_skew: 0,
    scarce: false,
    reenter: None,
    done: AtomicU32::new(0),
    lo: 0,
    hi: 0,
};

thread_local! {
    static TLS: Cell<*mut Thr> = const { Cell::new(core::ptr::null_mut()) };
}

#[inline(always)]
pub fn me() -> *mut Thr {
    TLS.with(|c| c.get())
}

#[inline(always)]
pub fn g() -> &'static mut Glob {
    unsafe { &mut *core::ptr::addr_of_mut!(G) }
}

#[inline(always)]
pub fn rec() -> &'static mut Rec {
    unsafe { &mut *g().rec }
}

/// The caller, if it currently is inside a call into the code under test.
#[inline(always)]
pub fn in_call() -> Option<&'static mut Thr> {
    let t = me();
    if t.is_null() {
        return None;
    }
    let t = unsafe { &mut *t };
    (t.in_call != 0 && t.sim == 0).then_some(t)
}

pub fn managed() -> Option<&'static mut Thr> {
    let t = me();
    if t.is_null() {
        return None;
    }
    Some(unsafe { &mut *t })
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
pub fn tick_edge(guard: u32) {
    let t = me();
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if t.in_call == 0 || t.sim != 0 {
        return;
    }
    unsafe {
        if !crate::cov::COV.is_null() && (guard as usize) < crate::cov::COVMAX {
            let c = crate::cov::COV.add(guard as usize);
            if *c == 0 {
                *c = 1;
            }
        }
    }
    t.step += 1;
    if t.step >= t.next {
        slow(t);
    }
}

#[inline(always)]
pub fn tick_mem(addr: usize) {
    let t = me();
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if t.in_call == 0 || t.sim != 0 {
        return;
    }
    let gl = g();
    if addr >= gl.lo && addr < gl.hi {
        hot(t);
    }
    t.step += 1;
    if t.step >= t.next {
        slow(t);
    }
}

#[cold]
fn hot(t: &mut Thr) {
    rec().ctr[ctr::HOT] += 1;
    if (t.res.nhot as usize) < NHOT {
        // keep the first ones, thinned out: no two closer than 2 ticks
        let k = t.res.nhot as usize;
        if k == 0 || t.step as u32 >= t.res.hot[k - 1] + 2 {
            t.res.hot[k] = t.step as u32;
            t.res.nhot += 1;
        }
    }
}

/// A call into user-supplied code: number type, point storage, lens model, serializer.
#[inline(never)]
pub fn seam() {
    let t = me();
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if t.in_call == 0 || t.sim != 0 {
        return;
    }
    t.step += 1;
    if t.step >= t.next {
        slow(t);
    }
    if t.depth != 0 {
        return;
    }
    let k = t.seam;
    t.seam += 1;
    // (a panic while a panic is being reported ends the process, whoever is at fault)
    if k == t.cfg.panic_at && !std::thread::panicking() {
        rec().ctr[ctr::PANIC] += 1;
        rec().fold(0xBAD ^ (k << 8));
        t.injected = true;
        std::panic::resume_unwind(Box::new(Injected));
    }
    if k == t.cfg.reenter_at && !std::thread::panicking() {
        if let Some(f) = g().reenter {
            rec().ctr[ctr::REENTER] += 1;
            t.depth += 1;
            let saved = t.res;
            f(t.id);
            t.res = saved;
            t.depth -= 1;
        }
    }
}

pub struct Injected;

#[cold]
#[inline(never)]
fn slow(t: &mut Thr) {
    t.sim += 1;
    if t.step >= t.cfg.budget {
        let stalled = (0..g().n).any(|i| g().thr[i].state == S::Stalled);
        rec().fail(fk::NO_PROGRESS, stalled as u32, t.owner, t.op, [t.step, 0, 0, 0, 0, 0], None);
        finish();
    }
    while t.evi < t.nev && t.evs[t.evi].op == t.op && t.evs[t.evi].step <= t.step {
        let e = t.evs[t.evi];
        t.evi += 1;
        fire(t, e);
    }
    if t.step - t.qstart >= g().quantum {
        t.qstart = t.step;
        if let Some(n) = ready_after(t.id) {
            rec().ctr[ctr::QUANTUM] += 1;
            switch_to(t, n, 2);
        }
    }
    set_next(t);
    t.sim -= 1;
}

fn set_next(t: &mut Thr) {
    let mut n = t.cfg.budget.min(t.qstart.saturating_add(g().quantum));
    if t.evi < t.nev && t.evs[t.evi].op == t.op {
        n = n.min(t.evs[t.evi].step);
    }
    t.next = n;
}

fn ready_after(id: usize) -> Option<usize> {
    let n = g().n;
    (1..n).map(|k| (id + k) % n).find(|&i| g().thr[i].state == S::Ready)
}

fn fire(t: &mut Thr, e: Ev) {
    let mut list = [0usize; MAXALL];
    let mut k = 0;
    for i in 0..g().n {
        if i != t.id && g().thr[i].state == S::Ready {
            list[k] = i;
            k += 1;
        }
    }
    if k == 0 {
        return;
    }
    let to = list[e.arg as usize % k];
    if e.act == 1 {
        rec().ctr[ctr::STALL] += 1;
        t.state = S::Stalled;
        switch_to(t, to, 1);
    } else {
        rec().ctr[ctr::SWITCH] += 1;
        switch_to(t, to, 0);
    }
}

fn log_switch(t: &Thr, to: usize, why: u8) {
    let r = rec();
    let s = Sw { tid: t.id as u8, to: to as u8, why, pad: 0, op: t.op, step: t.step };
    if (r.nsw as usize) < NTRACE {
        r.trace[r.nsw as usize] = s;
    }
    r.nsw += 1;
    r.sched_hash =
        mix(r.sched_hash ^ ((s.tid as u64) << 56 | (s.to as u64) << 48 | (why as u64) << 44 | (s.op as u64) << 24) ^ s.step);
}

fn pass(to: usize) {
    g().cur = to;
    let w = &g().thr[to].word;
    w.store(1, SeqCst);
    raw::futex_wake(w, 1);
}

fn await_baton(t: &Thr) {
    while t.word.swap(0, SeqCst) == 0 {
        raw::futex_wait(&t.word, 0, None);
    }
}

fn switch_to(t: &mut Thr, to: usize, why: u8) {
    if to == t.id {
        return;
    }
    log_switch(t, to, why);
    pass(to);
    await_baton(t);
    t.qstart = t.step;
}

/// The running caller cannot go on (blocked or done): choose who runs next. None: nobody is left.
fn next_runnable(from: usize) -> Option<usize> {
    loop {
        if g().thr[from].state == S::Ready {
            return Some(from);
        }
        if let Some(n) = ready_after(from) {
            return Some(n);
        }
        // earliest timed wait
        let mut best: Option<usize> = None;
        for i in 0..g().n {
            let x = &g().thr[i];
            if x.state == S::Blocked
                && x.deadline != NEVER
                && best.map_or(true, |b| x.deadline < g().thr[b].deadline)
            {
                best = Some(i);
            }
        }
        if let Some(b) = best {
            let x = &mut g().thr[b];
            g().clock = g().clock.max(x.deadline);
            x.timed_out = true;
            x.state = S::Ready;
            continue;
        }
        let blocked = (0..g().n).find(|&i| g().thr[i].state == S::Blocked);
        let stalled = (0..g().n).find(|&i| g().thr[i].state == S::Stalled);
        if let Some(b) = blocked {
            // Threads the simulator does not manage may still wake somebody up.
            if g().foreign {
                for _ in 0..5000 {
                    if (0..g().n).any(|i| g().thr[i].state == S::Ready) {
                        break;
                    }
                    let z = AtomicU32::new(0);
                    raw::futex_wait(&z, 0, Some(1));
                    for i in 0..g().n {
                        // a foreign thread changes the word without telling us
                        let x = &mut g().thr[i];
                        if x.state == S::Blocked {
                            x.state = S::Ready;
                        }
                    }
                }
                if (0..g().n).any(|i| g().thr[i].state == S::Ready) {
                    continue;
                }
            }
            let x = &g().thr[b];
            if stalled.is_some() {
                rec().fail(fk::BLOCKED_BY_STALLED, 0, x.owner, x.op, [x.step, 0, 0, 0, 0, 0], None);
            } else {
                rec().fail(fk::DEADLOCK, 0, x.owner, x.op, [x.step, 0, 0, 0, 0, 0], None);
                finish();
            }
        }
        match stalled {
            Some(s) => {
                rec().ctr[ctr::RESUMED] += 1;
                g().thr[s].state = S::Ready;
            }
            None => match (0..g().n).find(|&i| g().thr[i].state == S::Last) {
                Some(l) => g().thr[l].state = S::Ready,
                None => return None,
            },
        }
    }
}

/// End the run from inside: whatever is recorded is in shared memory.
pub fn finish() -> ! {
    account();
    rec().finished = 1;
    raw::exit_now(0)
}

/// Fold what the run did into the record.
pub fn account() {
    let r = rec();
    let mut s = 0;
    for i in 0..g().n {
        let t = &g().thr[i];
        s += t.total + t.step;
    }
    r.ctr[ctr::STEPS] += s;
    r.clock = g().clock + s * 10;
    let h = r.sched_hash;
    r.fold(h);
    r.fold(s);
}

// ---------------------------------------------------------------- interface for the glue

/// Begin call number `op` of this caller.
#[inline(never)]
pub fn op_begin(op: u32, cfg: OpCfg, sw: u8) {
    let Some(t) = managed() else { return };
    t.total += t.step;
    t.op = op;
    t.step = 0;
    t.qstart = 0;
    t.seam = 0;
    t.allocs = 0;
    t.cfg = cfg;
    t.injected = false;
    t.res.clear();
    t.res.status = st::RUNNING;
    let r = rec();
    r.cur_op[t.id] = op + 1;
    r.ctr[ctr::CALLS] += 1;
    while t.evi < t.nev && t.evs[t.evi].op < op {
        t.evi += 1;
    }
    t.sim += 1;
    if sw != 0 {
        let to = (sw - 1) as usize;
        if to < g().callers && to != t.id && g().thr[to].state == S::Ready {
            switch_to(t, to, 5);
        }
    }
    while t.evi < t.nev && t.evs[t.evi].op == op && t.evs[t.evi].step == 0 {
        let e = t.evs[t.evi];
        t.evi += 1;
        fire(t, e);
    }
    set_next(t);
    t.sim -= 1;
}

#[inline(never)]
pub fn op_end() -> &'static OpRes {
    let t = managed().expect("op_end outside a run");
    t.res.steps = t.step;
    t.res.seams = t.seam;
    t.res.allocs = t.allocs;
    let r = rec();
    r.ctr[ctr::ALLOCS] += t.allocs;
    r.fold(t.res.hash ^ ((t.res.status as u64) << 56) ^ ((t.id as u64) << 48));
    &t.res
}

/// Marks the end of the construction of the object under test.
#[inline(never)]
pub fn done_if_running() {
    if let Some(t) = managed() {
        if t.res.status == st::RUNNING {
            t.res.status = st::DONE;
        }
    }
}

#[inline(never)]
pub fn built() {
    if let Some(t) = managed() {
        if t.depth == 0 {
            t.res.build_steps = t.step;
            t.res.build_seams = t.seam;
        }
    }
}

#[inline(never)]
pub fn enter() {
    let t = me();
    if !t.is_null() {
        unsafe { (*t).in_call += 1 }
    }
}

#[inline(never)]
pub fn leave() {
    let t = me();
    if !t.is_null() {
        unsafe { (*t).in_call -= 1 }
    }
}

/// Results are copied into the log as well (single caller only).
pub static mut LOG_RES: bool = false;

#[inline(never)]
pub fn push(w: u64) {
    if let Some(t) = managed() {
        t.res.push(w);
        if unsafe { LOG_RES } && t.depth == 0 {
            rec().push_log(w);
        }
    }
}

#[inline(never)]
pub fn set_status(s: u32) {
    if let Some(t) = managed() {
        t.res.status = s
    }
}

/// Code of the simulator itself that happens to run inside a call: no ticks, no faults.
#[inline]
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    quiet_add(1);
    let r = f();
    quiet_add(u32::MAX);
    r
}

#[inline(never)]
pub fn quiet_add(d: u32) {
    let t = me();
    if !t.is_null() {
        unsafe { (*t).sim = (*t).sim.wrapping_add(d) }
    }
}

// ---------------------------------------------------------------- running

/// Prepare the scheduler for a run with `n` callers.
/// Caller `i` runs only after everybody else is done.
pub fn make_last(i: usize) {
    g().thr[i].state = S::Last;
}

pub fn setup(n: usize, evs: &[Vec<Ev>], quantum: u64, env_seed: u64) {
    let gl = g();
    gl.n = n;
    gl.callers = n;
    gl.quantum = quantum.max(100);
    gl.env_seed = env_seed;
    gl.env_ctr = 0;
    gl.clock = 1_000_000_000 + mix(env_seed) % 1_000_000_000_000;
    {
        gl.lo = core::ptr::addr_of!(__data_start) as usize;
        gl.hi = core::ptr::addr_of!(_end) as usize;
    }
    for i in 0..n {
        let t = &mut gl.thr[i];
        t.id = i;
        t.owner = i;
        t.state = S::Ready;
        t.word = AtomicU32::new(0);
        let mut v: Vec<Ev> = evs.get(i).cloned().unwrap_or_default();
        v.sort_by_key(|e| (e.op, e.step));
        t.nev = v.len().min(MAXEV);
        t.evs[..t.nev].copy_from_slice(&v[..t.nev]);
    }
}

static mut BODY: Option<fn(usize)> = None;
/// Bytes of unused stack below the first frame of a caller: addresses of locals differ from run to
/// run in every bit the alignment leaves free.
static mut PAD: usize = 0;

extern "C" fn start(id: usize) {
    unsafe { (BODY.unwrap())(id) }
}

unsafe fn start_padded(id: usize) {
    core::arch::asm!(
        "mov r12, rsp",
        "sub rsp, {pad}",
        "call {f}",
        "mov rsp, r12",
        pad = in(reg) PAD,
        f = in(reg) start as extern "C" fn(usize) as usize,
        in("rdi") id,
        out("r12") _,
        clobber_abi("C"),
    );
}

static UP: AtomicU32 = AtomicU32::new(0);

fn tmain(id: usize) {
    let t: *mut Thr = &mut g().thr[id];
    UP.store(1, SeqCst);
    raw::futex_wake(&UP, 1);
    unsafe {
        await_baton(&*t);
        TLS.with(|c| c.set(t));
        start_padded(id);
        let t = &mut *t;
        t.sim += 1;
        t.state = S::Done;
        rec().cur_op[id] = 0;
        match next_runnable(id) {
            Some(n) => {
                log_switch(t, n, 3);
                pass(n);
            }
            None => {
                g().done.store(1, SeqCst);
                raw::futex_wake(&g().done, 1);
            }
        }
        // The thread never ends: destructors of its thread-local data would run unscheduled.
        let z = AtomicU32::new(0);
        loop {
            raw::futex_wait(&z, 0, None);
        }
    }
}

/// Run all callers to completion; `first` starts.
pub fn run(body: fn(usize), first: usize, addr_seed: u64) {
    let n = g().callers;
    unsafe {
        BODY = Some(body);
        PAD = (mix(addr_seed ^ 0x9AD) % 256) as usize * 16;
        let shift = (mix(addr_seed ^ 0x57AC) % 16) as usize * 4096;
        let total = MAXT * (STACK + 4096) + 16 * 4096;
        let p = libc::mmap(
            STACK_BASE as *mut _,
            total,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        if p as usize != STACK_BASE {
            eprintln!("cannot map stacks");
            raw::exit_now(3);
        }
        for i in 0..n {
            UP.store(0, SeqCst);
            crate::interpose::STACK_AT = (STACK_BASE + shift + i * (STACK + 4096), STACK);
            let mut b = std::thread::Builder::new().stack_size(STACK);
            if let Some(name) = crate::world::thread_name(g().env_seed, i) {
                b = b.name(name);
            }
            if b.spawn(move || tmain(i)).is_err() {
                eprintln!("cannot start a thread");
                raw::exit_now(3);
            }
            // one after the other: what the standard library does at its start is part of the run
            while UP.load(SeqCst) == 0 {
                raw::futex_wait(&UP, 0, None);
            }
        }
        pass(first % n);
        while g().done.load(SeqCst) == 0 {
            raw::futex_wait(&g().done, 0, None);
        }
    }
}

// ---------------------------------------------------------------- threads started by the code under test

/// A call starts a thread. It becomes part of the simulation: it runs when the scheduler says so,
/// with preemptions of its own. None: too many of them, let it run unmanaged.
pub unsafe fn spawn(
    t: &mut Thr,
    out: *mut libc::pthread_t,
    start: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void,
    arg: *mut libc::c_void,
    create: impl FnOnce(extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32,
) -> Option<i32> {
    let gl = g();
    let Some(id) = (gl.callers..gl.n).find(|&i| gl.thr[i].state == S::Done).or((gl.n < MAXALL).then_some(gl.n)) else {
        gl.foreign = true;
        return None;
    };
    gl.spawned += 1;
    let h0 = mix(gl.env_seed ^ gl.spawned.wrapping_mul(0x7EAD));
    if gl.scarce && (h0 >> 32) % 24 == 0 {
        rec().ctr[ctr::SPAWN_REFUSED] += 1;
        return Some(libc::EAGAIN);
    }
    t.sim += 1;
    rec().ctr[ctr::SPAWN] += 1;
    let c = &mut gl.thr[id];
    let total = c.total + c.step;
    *c = Thr::new();
    c.total = total;
    c.id = id;
    c.owner = t.owner;
    c.state = S::Ready;
    c.start = Some(start);
    c.arg = arg;
    c.op = t.op;
    c.cfg = OpCfg { budget: t.cfg.budget, ..OpCfg::default() };
    // where it is preempted
    c.nev = (h0 % 9) as usize;
    let mut h = h0;
    for i in 0..c.nev {
        h = mix(h);
        let scale = 1u64 << (h >> 8) % 16;
        c.evs[i] = Ev { op: t.op, step: (h >> 20) % scale + (h >> 50) % 4, act: 0, arg: (h >> 40) as u8 };
    }
    c.evs[..c.nev].sort_by_key(|e| e.step);
    if id == gl.n {
        gl.n += 1;
    }
    let r = create(child_main, id as *mut _);
    if r != 0 {
        g().thr[id].state = S::Done;
    } else {
        g().thr[id].pth = *out;
        // sometimes the new thread is first
        if h0 >> 60 < 6 {
            switch_to(t, id, 6);
            set_next(t);
        }
    }
    t.sim -= 1;
    Some(r)
}

extern "C" fn child_main(arg: *mut libc::c_void) -> *mut libc::c_void {
    let id = arg as usize;
    let p: *mut Thr = &mut g().thr[id];
    unsafe {
        await_baton(&*p);
        TLS.with(|c| c.set(p));
        {
            let t = &mut *p;
            t.sim = 1;
            t.in_call = 1;
            set_next(t);
            t.sim = 0;
        }
        let r = ((*p).start.unwrap())((*p).arg);
        // destructors of its thread-local data
        while (*p).ndtors > 0 {
            (*p).ndtors -= 1;
            let (f, o) = (*p).dtors[(*p).ndtors];
            let f: extern "C" fn(usize) = core::mem::transmute(f);
            f(o);
        }
        TLS.with(|c| c.set(core::ptr::null_mut()));
        let t = &mut *p;
        t.state = S::Done;
        futex_wakeup(p as usize, usize::MAX);
        match next_runnable(id) {
            Some(n) => {
                log_switch(t, n, 3);
                pass(n);
            }
            None => {
                g().done.store(1, SeqCst);
                raw::futex_wake(&g().done, 1);
            }
        }
        r
    }
}

/// Wait for a thread a call has started.
pub fn join(t: &mut Thr, th: libc::pthread_t) {
    loop {
        let gl = g();
        let Some(i) = (gl.callers..gl.n).find(|&i| gl.thr[i].pth == th && gl.thr[i].state != S::Done) else { return };
        t.sim += 1;
        let a = core::ptr::addr_of!(gl.thr[i]) as usize;
        block(t, a, NEVER);
        t.sim -= 1;
    }
}

/// A destructor of thread-local data of a started thread. False: not one of ours.
pub fn at_thread_exit(f: usize, obj: usize) -> bool {
    let Some(t) = managed() else { return false };
    if t.id < g().callers || t.ndtors == t.dtors.len() {
        return false;
    }
    t.dtors[t.ndtors] = (f, obj);
    t.ndtors += 1;
    true
}

// ---------------------------------------------------------------- blocking, time, environment

pub fn futex_block(t: &mut Thr, addr: *const AtomicU32, val: u32, deadline: u64) -> i32 {
    t.sim += 1;
    rec().ctr[ctr::FUTEX_WAIT] += 1;
    let r = unsafe {
        if (*addr).load(SeqCst) != val {
            libc::EAGAIN
        } else {
            block(t, addr as usize, deadline)
        }
    };
    t.sim -= 1;
    r
}

fn block(t: &mut Thr, addr: usize, deadline: u64) -> i32 {
    t.state = S::Blocked;
    t.waddr = addr;
    t.deadline = deadline;
    t.timed_out = false;
    let id = t.id;
    match next_runnable(id) {
        Some(n) => switch_to(t, n, 4),
        None => finish(),
    }
    t.deadline = NEVER;
    t.waddr = 0;
    if t.timed_out {
        t.timed_out = false;
        libc::ETIMEDOUT
    } else {
        0
    }
}

pub fn futex_wakeup(addr: usize, n: usize) -> usize {
    rec().ctr[ctr::FUTEX_WAKE] += 1;
    let mut k = 0;
    for i in 0..g().n {
        let x = &mut g().thr[i];
        if k < n && x.state == S::Blocked && x.waddr == addr && addr != 0 {
            x.state = S::Ready;
            k += 1;
        }
    }
    k
}

pub fn sleep_ns(t: &mut Thr, ns: u64) {
    t.sim += 1;
    rec().ctr[ctr::SLEEP] += 1;
    let d = now(t).saturating_add(ns);
    block(t, 0, d);
    t.sim -= 1;
}

pub fn rotate(t: &mut Thr) {
    t.sim += 1;
    t.step += 1;
    if t.step >= t.cfg.budget {
        rec().fail(fk::NO_PROGRESS, 2, t.owner, t.op, [t.step, 0, 0, 0, 0, 0], None);
        finish();
    }
    if let Some(n) = ready_after(t.id) {
        rec().ctr[ctr::QUANTUM] += 1;
        switch_to(t, n, 2);
        set_next(t);
    }
    t.sim -= 1;
}

pub fn now(_t: &Thr) -> u64 {
    g().clock
}

/// The simulated clock moves only when somebody looks at it, by whatever the run's seed says.
pub fn read_clock(realtime: bool) -> i64 {
    let gl = g();
    gl.env_ctr += 1;
    let h = mix(gl.env_seed ^ gl.env_ctr.wrapping_mul(0x51ED));
    rec().ctr[ctr::CLOCK_READ] += 1;
    let d = match h % 8 {
        0 => 0,
        1 | 2 => h % 1000,
        3 => h % 1_000_000,
        4 => h % 1_000_000_000,
        5 => {
            rec().ctr[ctr::CLOCK_JUMP] += 1;
            3_600_000_000_000 + h % 86_400_000_000_000
        }
        _ => 100,
    };
    gl.clock += d;
    if realtime {
        if h & 0x100 != 0 {
            rec().ctr[ctr::CLOCK_JUMP] += 1;
            // hours, years, or (a machine without a battery) close to or before 1970
            gl.wall_skew = match (h >> 9) % 8 {
                0..=4 => (h >> 20) as i64 % 100_000_000_000_000,
                5 => (h >> 10) as i64 % 1_000_000_000_000_000_000,
                6 => -((h >> 10) as i64 % 1_000_000_000_000_000_000),
                _ => -1_700_000_000_000_000_000 - gl.clock as i64 + (h >> 20) as i64 % 100_000_000_000 - 50_000_000_000,
            };
        }
        1_700_000_000_000_000_000i64.saturating_add(gl.clock as i64).saturating_add(gl.wall_skew)
    } else {
        gl.clock as i64
    }
}

pub fn env_bits(tag: u64) -> u64 {
    let gl = g();
    gl.env_ctr += 1;
    mix(gl.env_seed ^ tag.wrapping_mul(0x9E37) ^ gl.env_ctr.wrapping_mul(0xABCD_EF01))
}
