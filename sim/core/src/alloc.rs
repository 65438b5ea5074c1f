//! The simulated heap. In a simulated run every allocation of the process comes from an arena at a
//! fixed address with a deterministic free list, so that addresses (and their reuse) are part of
//! the seed. Allocations made inside a call are counted and can be refused.
use crate::engine;
use crate::shared::ctr;
use core::sync::atomic::{AtomicBool, AtomicU32, Ordering::*};
use std::alloc::{GlobalAlloc, Layout, System};

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 30;

pub struct SimAlloc;

struct Arena {
    top: usize,
    free: [usize; NCLS],
    live: usize,
    peak: usize,
}
const NCLS: usize = 96;

static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicU32 = AtomicU32::new(0);
static mut A: Arena = Arena { top: BASE, free: [0; NCLS], live: 0, peak: 0 };

/// Reserve the arena (once, before any fork).
pub fn reserve() {
    let p = unsafe {
        libc::mmap(
            BASE as *mut _,
            SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    if p as usize != BASE {
        eprintln!("cannot map arena");
        std::process::exit(2);
    }
}

/// From now on this process allocates from the arena.
pub fn activate(addr_seed: u64) {
    unsafe {
        A.top = BASE + 4096 + (crate::rng::mix(addr_seed ^ 0xA11C) % 512) as usize * 16;
    }
    ON.store(true, Release);
}

pub fn live() -> usize {
    unsafe { A.live }
}
pub fn peak() -> usize {
    unsafe { A.peak }
}

fn class(size: usize) -> (usize, usize) {
    let s = size.max(1);
    if s <= 1024 {
        let c = (s + 15) / 16;
        (c, c * 16)
    } else {
        let b = usize::BITS as usize - (s - 1).leading_zeros() as usize;
        (64 + b - 10, 1 << b)
    }
}

fn lock() {
    while LOCK.swap(1, Acquire) != 0 {
        core::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(0, Release);
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let (c, sz) = class(l.size());
    lock();
    let a = &mut *core::ptr::addr_of_mut!(A);
    let p;
    if l.align() <= 16 && a.free[c] != 0 {
        p = a.free[c];
        a.free[c] = *(p as *const usize);
    } else {
        let al = l.align().max(16);
        let t = (a.top + al - 1) & !(al - 1);
        if t + sz > BASE + SIZE {
            unlock();
            return core::ptr::null_mut();
        }
        a.top = t + sz;
        p = t;
    }
    a.live += sz;
    a.peak = a.peak.max(a.live);
    unlock();
    p as *mut u8
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Relaxed) {
            return System.alloc(l);
        }
        if let Some(t) = engine::in_call() {
            let k = t.allocs;
            t.allocs += 1;
            if k >= t.cfg.deny_from && !t.injected {
                engine::rec().ctr[ctr::DENY] += 1;
                engine::rec().denied = [t.id as u32 + 1, t.op];
                return core::ptr::null_mut();
            }
        }
        arena_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !(BASE..BASE + SIZE).contains(&a) {
            // allocated before the run began
            if !ON.load(Relaxed) {
                System.dealloc(p, l);
            }
            return;
        }
        let (c, sz) = class(l.size());
        lock();
        let ar = &mut *core::ptr::addr_of_mut!(A);
        *(a as *mut usize) = ar.free[c];
        ar.free[c] = a;
        ar.live -= sz;
        unlock();
    }
}
