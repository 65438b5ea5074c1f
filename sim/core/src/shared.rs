//! The record of one simulated run. It lives in memory shared with the parent process, so that it
//! survives whatever happens to the process the run takes place in.
use crate::rng::mix;

pub const MAXT: usize = 6;
pub const OPW: usize = 56;
pub const NHOT: usize = 24;
pub const NFAIL: usize = 8;
pub const NTRACE: usize = 256;
pub const NCTR: usize = 64;
pub const NLOG: usize = 1 << 17;
pub const NDISK: usize = 1 << 20;

/// Status of one executed call.
pub mod st {
    pub const NONE: u32 = 0;
    pub const RUNNING: u32 = 1;
    pub const DONE: u32 = 2;
    pub const INJECTED: u32 = 3; // unwound by a panic the simulator injected
    pub const PANICKED: u32 = 4; // unwound by a panic of its own
}

/// What went wrong, as recorded by the run itself.
pub mod fk {
    pub const NONE: u32 = 0;
    pub const MISMATCH: u32 = 1; // other result than the virgin reference
    pub const NO_PROGRESS: u32 = 2; // step budget exhausted
    pub const BLOCKED_BY_STALLED: u32 = 3; // waits for a stalled caller
    pub const DEADLOCK: u32 = 4;
    pub const PANIC: u32 = 5; // unexpected panic
    pub const STATE_CHANGED: u32 = 6; // shared camera or input differs afterwards
    pub const LEAK: u32 = 7;
    pub const ASSERT: u32 = 8; // property-specific assertion; code in `aux`
    pub const NESTED: u32 = 9; // re-entrant call got another result
    pub const CRASH: u32 = 10; // the process died
    pub const HANG: u32 = 11; // watchdog
    pub const HEAP: u32 = 12; // needed the heap although the data has fixed size
}

/// Counters of faults that actually fired and other reach probes.
pub mod ctr {
    pub const SWITCH: usize = 0;
    pub const STALL: usize = 1;
    pub const PANIC: usize = 2;
    pub const DENY: usize = 3;
    pub const CLOCK_JUMP: usize = 4;
    pub const CLOCK_READ: usize = 5;
    pub const RANDOM_READ: usize = 6;
    pub const ENV_READ: usize = 7;
    pub const CPU_READ: usize = 8;
    pub const FUTEX_WAIT: usize = 9;
    pub const FUTEX_WAKE: usize = 10;
    pub const QUANTUM: usize = 11;
    pub const REENTER: usize = 12;
    pub const MODEL_CALL: usize = 13;
    pub const MODEL_GARBAGE: usize = 14;
    pub const CALLS: usize = 15;
    pub const STEPS: usize = 16;
    pub const ALLOCS: usize = 17;
    pub const HOT: usize = 18; // accesses to writable global memory inside calls
    pub const IO_READ: usize = 20;
    pub const IO_WRITE: usize = 21;
    pub const IO_SHORT: usize = 22;
    pub const IO_EINTR: usize = 23;
    pub const IO_EIO: usize = 24;
    pub const IO_ENOSPC: usize = 25;
    pub const IO_EOF: usize = 26;
    pub const CRASHPOINT: usize = 27;
    pub const CORRUPT: usize = 28;
    pub const CODEC_FAULT: usize = 29;
    pub const RESTART: usize = 30;
    pub const MODEL_FAULT: usize = 31;
    pub const RESUMED: usize = 32;
    pub const RETRY: usize = 33;
    pub const SLEEP: usize = 34;
    pub const LOADS_OK: usize = 35;
    pub const LOADS_ERR: usize = 36;
    pub const SAVES_OK: usize = 37;
    pub const SAVES_ERR: usize = 38;
    pub const CHECK_OK: usize = 39;
    pub const CHECK_PANIC: usize = 40;
    pub const SPAWN: usize = 41;
    pub const FILE_OP: usize = 42;
    pub const SPAWN_REFUSED: usize = 43;
    pub const NAMES: [(usize, &str); 35] = [
        (SWITCH, "preemption"),
        (STALL, "stalled_caller"),
        (RESUMED, "stalled_caller_resumed"),
        (PANIC, "panic_injected"),
        (DENY, "allocation_refused"),
        (CLOCK_JUMP, "clock_jump"),
        (CLOCK_READ, "clock_read_answered"),
        (RANDOM_READ, "random_read_answered"),
        (ENV_READ, "environment_read_answered"),
        (CPU_READ, "cpu_count_read_answered"),
        (FUTEX_WAIT, "blocking_wait"),
        (FUTEX_WAKE, "blocking_wake"),
        (QUANTUM, "quantum_rotation"),
        (REENTER, "reentrant_call"),
        (MODEL_CALL, "model_call"),
        (MODEL_GARBAGE, "model_garbage_answer"),
        (MODEL_FAULT, "model_fault"),
        (CALLS, "calls"),
        (STEPS, "steps"),
        (ALLOCS, "allocations_in_calls"),
        (HOT, "writable_global_accesses"),
        (IO_READ, "io_read"),
        (IO_WRITE, "io_write"),
        (IO_SHORT, "io_short_transfer"),
        (IO_EINTR, "io_interrupted"),
        (IO_EIO, "io_error"),
        (IO_ENOSPC, "io_disk_full"),
        (IO_EOF, "io_early_eof"),
        (CRASHPOINT, "crash"),
        (CORRUPT, "data_corruption"),
        (CODEC_FAULT, "codec_fault"),
        (RESTART, "restart"),
        (RETRY, "retry"),
        (SLEEP, "sleep"),
        (LOADS_OK, "loads_accepted"),
    ];
    pub const NAMES2: [(usize, &str); 8] =
        [(SPAWN, "threads_started_in_calls"), (SPAWN_REFUSED, "threads_refused"), (FILE_OP, "file_operations_answered"), (CHECK_OK, "self_checks_passed"), (CHECK_PANIC, "self_checks_rejecting"), (LOADS_ERR, "loads_rejected"), (SAVES_OK, "saves_ok"), (SAVES_ERR, "saves_failed")];
}

/// Result of one call: every observable word of it, hashed, the first ones in full.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct OpRes {
    pub status: u32,
    pub n: u32,
    pub hash: u64,
    pub words: [u64; OPW],
    pub steps: u64,
    pub build_steps: u64,
    pub seams: u64,
    pub build_seams: u64,
    pub allocs: u64,
    pub nhot: u32,
    pub hot: [u32; NHOT],
}

impl OpRes {
    pub const ZERO: OpRes = OpRes {
        status: 0,
        n: 0,
        hash: 0,
        words: [0; OPW],
        steps: 0,
        build_steps: 0,
        seams: 0,
        build_seams: 0,
        allocs: 0,
        nhot: 0,
        hot: [0; NHOT],
    };
    #[inline]
    pub fn clear(&mut self) {
        self.status = 0;
        self.n = 0;
        self.hash = 0x1234_5678_9abc_def1;
        self.steps = 0;
        self.build_steps = 0;
        self.seams = 0;
        self.build_seams = 0;
        self.allocs = 0;
        self.nhot = 0;
    }
    #[inline]
    pub fn push(&mut self, w: u64) {
        if (self.n as usize) < OPW {
            self.words[self.n as usize] = w;
        }
        self.n += 1;
        self.hash = (self.hash.rotate_left(9) ^ w).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.hash ^= self.hash >> 29;
    }
    pub fn same(&self, o: &OpRes) -> bool {
        self.status == o.status && self.n == o.n && self.hash == o.hash
    }
}

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Fail {
    pub kind: u32,
    pub aux: u32,
    pub tid: u32,
    pub op: u32,
    pub info: [u64; 6],
    pub res: OpRes,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Sw {
    pub tid: u8,
    pub to: u8,
    pub why: u8,
    pub pad: u8,
    pub op: u32,
    pub step: u64,
}

#[repr(C)]
pub struct Rec {
    pub finished: u32,
    pub nfail: u32,
    pub fails: [Fail; NFAIL],
    pub cur_op: [u32; MAXT],
    pub ctr: [u64; NCTR],
    pub clock: u64,
    pub nsw: u32,
    pub sched_hash: u64,
    pub trace: [Sw; NTRACE],
    pub digest: u64,
    pub res: OpRes,
    /// caller + 1 and call in which an allocation was refused last
    pub denied: [u32; 2],
    /// memory in use at the two measuring points
    pub mem: [u64; 4],
    pub note: [u8; 512],
    pub notelen: u32,
    pub nlog: u32,
    pub log: [u64; NLOG],
    pub disklen: u64,
    pub disk: [u8; NDISK],
}

impl Rec {
    /// Reset everything a run may look at. The two big arrays are bounded by their lengths.
    pub fn reset(&mut self) {
        self.finished = 0;
        self.nfail = 0;
        self.cur_op = [0; MAXT];
        self.ctr = [0; NCTR];
        self.clock = 0;
        self.nsw = 0;
        self.sched_hash = 0;
        self.digest = 0;
        self.res.clear();
        self.notelen = 0;
        self.denied = [0; 2];
        self.mem = [0; 4];
        self.nlog = 0;
        self.disklen = 0;
    }
    pub fn fold(&mut self, w: u64) {
        self.digest = mix(self.digest ^ w).rotate_left(5);
    }
    pub fn fail(&mut self, kind: u32, aux: u32, tid: usize, op: u32, info: [u64; 6], res: Option<&OpRes>) {
        self.fold(0xFA11 ^ ((kind as u64) << 32) ^ ((tid as u64) << 16) ^ op as u64);
        if (self.nfail as usize) < NFAIL {
            let f = &mut self.fails[self.nfail as usize];
            f.kind = kind;
            f.aux = aux;
            f.tid = tid as u32;
            f.op = op;
            f.info = info;
            f.res = match res {
                Some(r) => *r,
                None => OpRes::ZERO,
            };
        }
        self.nfail += 1;
    }
    pub fn set_note(&mut self, s: &str) {
        let b = s.as_bytes();
        let n = b.len().min(512);
        self.note[..n].copy_from_slice(&b[..n]);
        self.notelen = n as u32;
    }
    pub fn note(&self) -> String {
        String::from_utf8_lossy(&self.note[..self.notelen as usize]).into_owned()
    }
    pub fn push_log(&mut self, w: u64) {
        if (self.nlog as usize) < NLOG {
            self.log[self.nlog as usize] = w;
        }
        self.nlog += 1;
    }
}

pub fn map_shared(len: usize) -> *mut u8 {
    let p = unsafe {
        libc::mmap(
            core::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        )
    };
    if p == libc::MAP_FAILED {
        eprintln!("mmap failed");
        std::process::exit(2);
    }
    p as *mut u8
}
