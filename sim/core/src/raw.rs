//! Raw system calls that bypass the interposed libc entry points.
use core::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub fn futex_wait(w: &core::sync::atomic::AtomicU32, val: u32, timeout_ms: Option<u64>) -> isize {
    let ts = timeout_ms.map(|ms| libc::timespec {
        tv_sec: (ms / 1000) as i64,
        tv_nsec: ((ms % 1000) * 1_000_000) as i64,
    });
    let p = ts.as_ref().map_or(0usize, |t| t as *const _ as usize);
    unsafe { sys6(libc::SYS_futex, w as *const _ as usize, 128, val as usize, p, 0, 0) }
}

pub fn futex_wake(w: &core::sync::atomic::AtomicU32, n: u32) {
    unsafe {
        sys6(libc::SYS_futex, w as *const _ as usize, 129, n as usize, 0, 0, 0);
    }
}

/// Real monotonic time in nanoseconds; only the harness (never a simulated run) looks at it.
pub fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        sys6(libc::SYS_clock_gettime, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0);
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        loop {
            sys6(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
        }
    }
}
