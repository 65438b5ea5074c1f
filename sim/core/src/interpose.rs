//! libc entry points through which the outside world could reach a call. For a simulated caller
//! they are answered by the simulator, for everybody else they go to the kernel.
use crate::engine::{self, in_call, managed};
use crate::raw::sys6;
use crate::rng::mix;
use crate::shared::ctr;
use core::sync::atomic::AtomicU32;
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};

unsafe fn ret(r: isize) -> c_long {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r as c_long
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if n == libc::SYS_futex {
        if let Some(t) = managed() {
            let op = b as i32 & 0x7f;
            match op {
                0 | 9 => {
                    // FUTEX_WAIT (relative) / FUTEX_WAIT_BITSET (absolute)
                    let ts = d as *const timespec;
                    let dl = if ts.is_null() {
                        engine::NEVER
                    } else {
                        let v = ((*ts).tv_sec as u64).saturating_mul(1_000_000_000) + (*ts).tv_nsec as u64;
                        if op == 0 {
                            engine::now(t).saturating_add(v)
                        } else {
                            v
                        }
                    };
                    let r = engine::futex_block(t, a as *const AtomicU32, c as u32, dl);
                    return ret(-(r as isize));
                }
                1 | 10 => {
                    let k = engine::futex_wakeup(a, c as u32 as i32 as usize);
                    let r = sys6(n, a, b, c, d, e, f);
                    return ret(if r < 0 { r } else { r + k as isize });
                }
                _ => {}
            }
        }
    }
    if n == libc::SYS_getrandom && in_call().is_some() {
        return getrandom(a as *mut c_void, b, c as u32) as c_long;
    }
    ret(sys6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if let Some(_t) = in_call() {
        let v = engine::read_clock(clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE);
        (*ts).tv_sec = v.div_euclid(1_000_000_000);
        (*ts).tv_nsec = v.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(sys6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    (*tv).tv_sec = ts.tv_sec;
    (*tv).tv_usec = ts.tv_nsec / 1000;
    r
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut i64) -> i64 {
    let mut ts = timespec { tv_sec: 0, tv_nsec: 0 };
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !p.is_null() {
        *p = ts.tv_sec;
    }
    ts.tv_sec
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if in_call().is_some() {
        engine::rec().ctr[ctr::RANDOM_READ] += 1;
        let b = core::slice::from_raw_parts_mut(buf as *mut u8, n);
        let mut h = engine::env_bits(1);
        for x in b {
            *x = h as u8;
            h = mix(h);
        }
        return n as ssize_t;
    }
    ret(sys6(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0)) as ssize_t
}

/// Short strings the code under test mentions (NUL-terminated), filled before any run.
pub static mut ENV_WORDS: Vec<Vec<u8>> = Vec::new();
static ENV_COMMON: [&[u8]; 18] = [
    b"1\0", b"1\0", b"0\0", b"true\0", b"false\0", b"on\0", b"off\0", b"yes\0", b"no\0", b"2\0", b"4\0", b"8\0", b"fast\0",
    b"high\0", b"low\0", b"single\0", b"debug\0", b"\0",
];

extern "C" {
    pub(crate) static mut environ: *const *const c_char;
}

/// One of the words, NUL-terminated.
pub(crate) unsafe fn word(k: u64) -> &'static [u8] {
    let dict = &*core::ptr::addr_of!(ENV_WORDS);
    let k = k as usize;
    if k % 2 == 0 || dict.is_empty() {
        ENV_COMMON[(k >> 1) % ENV_COMMON.len()]
    } else {
        &dict[(k >> 1) % dict.len()]
    }
}

/// The value of an environment variable in this run, without its NUL: one answer per name and run.
pub(crate) unsafe fn env_value(nm: &[u8]) -> Option<&'static [u8]> {
    let mut h = engine::g().env_seed ^ 0xE17;
    for b in nm {
        h = mix(h ^ *b as u64);
    }
    let dict = &*core::ptr::addr_of!(ENV_WORDS);
    let k = h >> 8;
    let v: &'static [u8] = match h % 20 {
        0..=8 => return None,
        9..=14 => ENV_COMMON[k as usize % ENV_COMMON.len()],
        _ if dict.is_empty() => b"1\0",
        _ => &dict[k as usize % dict.len()],
    };
    Some(&v[..v.len() - 1])
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let len = libc::strlen(name);
    let nm = core::slice::from_raw_parts(name as *const u8, len);
    // (what the standard library itself looks at is no business of the code under test)
    let own = [&b"RUST_BACKTRACE"[..], b"RUST_LIB_BACKTRACE", b"RUST_MIN_STACK"].contains(&nm);
    if in_call().is_some() && !own {
        engine::rec().ctr[ctr::ENV_READ] += 1;
        return env_value(nm).map_or(core::ptr::null_mut(), |v| v.as_ptr() as *mut c_char);
    }
    let mut p = environ;
    if p.is_null() {
        return core::ptr::null_mut();
    }
    while !(*p).is_null() {
        let e = *p;
        if libc::strncmp(e, name, len) == 0 && *e.add(len) == b'=' as c_char {
            return e.add(len + 1) as *mut c_char;
        }
        p = p.add(1);
    }
    core::ptr::null_mut()
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(rq: *const timespec, rm: *mut timespec) -> c_int {
    if let Some(t) = managed() {
        let v = ((*rq).tv_sec as u64).saturating_mul(1_000_000_000) + (*rq).tv_nsec as u64;
        engine::sleep_ns(t, v);
        return 0;
    }
    ret(sys6(libc::SYS_nanosleep, rq as usize, rm as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, rq: *const timespec, rm: *mut timespec) -> c_int {
    if let Some(t) = managed() {
        let mut v = ((*rq).tv_sec as u64).saturating_mul(1_000_000_000) + (*rq).tv_nsec as u64;
        if flags & 1 != 0 {
            v = v.saturating_sub(engine::now(t));
        }
        engine::sleep_ns(t, v);
        return 0;
    }
    -(sys6(libc::SYS_clock_nanosleep, clk as usize, flags as usize, rq as usize, rm as usize, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(t) = managed() {
        engine::rotate(t);
        return 0;
    }
    sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if in_call().is_some() {
        engine::rec().ctr[ctr::RANDOM_READ] += 1;
        return (2 + mix(engine::g().env_seed ^ 0x91D) % 30000) as libc::pid_t;
    }
    sys6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut c_void) -> c_int {
    let r = sys6(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r < 0 {
        return ret(r) as c_int;
    }
    let b = core::slice::from_raw_parts_mut(set as *mut u8, n);
    for x in &mut b[r as usize..] {
        *x = 0;
    }
    if in_call().is_some() {
        engine::rec().ctr[ctr::CPU_READ] += 1;
        for x in b.iter_mut() {
            *x = 0;
        }
        let k = 1 + (mix(engine::g().env_seed ^ 0xC9) % 64) as usize;
        for i in 0..k {
            b[i / 8] |= 1 << (i % 8);
        }
    }
    0
}

/// The next thread gets this stack (address, size).
pub(crate) static mut STACK_AT: (usize, usize) = (0, 0);

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

unsafe fn next(name: &core::ffi::CStr) -> *mut c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: Start,
    arg: *mut c_void,
) -> c_int {
    let real: extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        core::mem::transmute(next(c"pthread_create"));
    let at = *core::ptr::addr_of!(STACK_AT);
    if at.0 != 0 && in_call().is_none() {
        STACK_AT = (0, 0);
        let mut attr: libc::pthread_attr_t = core::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        libc::pthread_attr_setstack(&mut attr, at.0 as *mut _, at.1);
        return real(out, &attr, f, arg);
    }
    if let Some(t) = in_call() {
        if let Some(r) = engine::spawn(t, out, f, arg, |f, a| real(out, attr, f, a)) {
            return r;
        }
    }
    real(out, attr, f, arg)
}

/// (stacks the simulator provides have their guard page, but glibc does not know)
#[no_mangle]
pub unsafe extern "C" fn pthread_attr_getguardsize(a: *const libc::pthread_attr_t, out: *mut size_t) -> c_int {
    let real: extern "C" fn(*const libc::pthread_attr_t, *mut size_t) -> c_int =
        core::mem::transmute(next(c"pthread_attr_getguardsize"));
    let r = real(a, out);
    if *out == 0 {
        *out = 4096;
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: libc::pthread_t, ret: *mut *mut c_void) -> c_int {
    if let Some(t) = managed() {
        engine::join(t, th);
    }
    let real: extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int = core::mem::transmute(next(c"pthread_join"));
    real(th, ret)
}

#[no_mangle]
pub unsafe extern "C" fn __cxa_thread_atexit_impl(f: *mut c_void, obj: *mut c_void, dso: *mut c_void) -> c_int {
    if engine::at_thread_exit(f as usize, obj as usize) {
        return 0;
    }
    let real: extern "C" fn(*mut c_void, *mut c_void, *mut c_void) -> c_int =
        core::mem::transmute(next(c"__cxa_thread_atexit_impl"));
    real(f, obj, dso)
}
