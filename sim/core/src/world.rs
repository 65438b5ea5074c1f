//! What else of the machine a call could look at: files, the program's name and arguments, the
//! environment as a whole, the processor's features, streams of the terminal. All of it is decided
//! by the seed of the run, all of it lasts as long as the run, and nothing reaches the real machine.
use crate::engine::{self, in_call};
use crate::interpose::{word, ENV_WORDS};
use crate::raw::sys6;
use crate::rng::mix;
use crate::shared::ctr;
use libc::{c_char, c_int, size_t};

const CWD: isize = libc::AT_FDCWD as isize;

unsafe fn fail(e: c_int) -> isize {
    *libc::__errno_location() = e;
    -1
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        fail(-r as c_int)
    } else {
        r
    }
}

// ---------------------------------------------------------------- files

#[derive(Clone, Copy)]
struct File {
    name: u64,
    /// the contents, or -1: there is no such file
    fd: c_int,
}
static mut FILES: [File; 256] = [File { name: 0, fd: -1 }; 256];
static mut NFILES: usize = 0;

unsafe fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    core::slice::from_raw_parts(p as *const u8, libc::strlen(p))
}
fn hash(b: &[u8]) -> u64 {
    let mut h = 0xF11E;
    for x in b {
        h = mix(h ^ *x as u64);
    }
    h | 1
}
unsafe fn contents(b: &[u8]) -> c_int {
    let fd = sys6(libc::SYS_memfd_create, c"f".as_ptr() as usize, 1, 0, 0, 0, 0);
    if fd >= 0 {
        sys6(libc::SYS_pwrite64, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0);
    }
    fd as c_int
}

/// One of the words, without its NUL.
unsafe fn text(k: u64) -> &'static [u8] {
    let w = word(k);
    &w[..w.len() - 1]
}

/// The file of this name, as the run's seed and what happened before have it.
unsafe fn file(name: &[u8]) -> Option<&'static mut File> {
    let k = hash(name);
    let n = *core::ptr::addr_of!(NFILES);
    let files = &mut *core::ptr::addr_of_mut!(FILES);
    if let Some(i) = files[..n].iter().position(|f| f.name == k) {
        return Some(&mut files[i]);
    }
    if n == files.len() {
        return None;
    }
    let h = mix(engine::g().env_seed ^ k);
    let fd = if name.starts_with(b"/dev/") {
        let mut r = [0u8; 512];
        let mut x = h;
        for b in &mut r {
            x = mix(x);
            *b = x as u8;
        }
        contents(&r)
    } else {
        match h % 16 {
            0..=6 => -1,
            7 => contents(b""),
            8..=12 => {
                let mut w = [0u8; 300];
                let v = text(h >> 8);
                let l = v.len().min(290);
                w[..l].copy_from_slice(&v[..l]);
                w[l] = b'\n';
                contents(&w[..l + (h >> 50) as usize % 2])
            }
            _ => {
                // numbers, one to a line
                let mut w = [0u8; 300];
                let mut l = 0;
                for i in 0..1 + (h >> 40) % 8 {
                    let x = mix(h ^ i);
                    w[l..l + 4].copy_from_slice(&[b'0' + (x % 10) as u8, b'.', b'0' + (x >> 8) as u8 % 10, b'\n']);
                    l += 4;
                }
                contents(&w[..l])
            }
        }
    };
    files[n] = File { name: k, fd };
    NFILES = n + 1;
    Some(&mut files[n])
}

/// A call opens a file. None: no call is in progress.
pub unsafe fn open(p: *const c_char, flags: c_int) -> Option<isize> {
    let t = in_call()?;
    t.sim += 1;
    let r = opened(bytes(p), flags);
    t.sim -= 1;
    Some(r)
}
unsafe fn opened(name: &[u8], flags: c_int) -> isize {
    engine::rec().ctr[ctr::FILE_OP] += 1;
    let h = mix(engine::g().env_seed ^ hash(name) ^ 0xACCE55);
    let Some(f) = file(name) else { return fail(libc::EMFILE) };
    if flags & libc::O_DIRECTORY != 0 {
        return fail(if f.fd < 0 { libc::ENOENT } else { libc::ENOTDIR });
    }
    if h % 16 == 0 {
        return fail(libc::EACCES);
    }
    if flags & libc::O_ACCMODE != libc::O_RDONLY && h % 16 == 1 {
        return fail(libc::EROFS);
    }
    if f.fd < 0 {
        if flags & libc::O_CREAT == 0 {
            return fail(libc::ENOENT);
        }
        f.fd = contents(b"");
    } else if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
        return fail(libc::EEXIST);
    }
    let mut path = *b"/proc/self/fd/\0\0\0\0\0\0\0\0\0\0";
    let mut d = [0u8; 8];
    let (mut x, mut n) = (f.fd, 0);
    loop {
        d[n] = b'0' + (x % 10) as u8;
        n += 1;
        x /= 10;
        if x == 0 {
            break;
        }
    }
    for i in 0..n {
        path[14 + i] = d[n - 1 - i];
    }
    let fl = flags & !(libc::O_CREAT | libc::O_EXCL | libc::O_NOFOLLOW);
    ret(sys6(libc::SYS_openat, CWD as usize, path.as_ptr() as usize, (fl | libc::O_CLOEXEC) as usize, 0, 0, 0))
}
pub unsafe fn unlink(p: *const c_char) -> Option<isize> {
    let t = in_call()?;
    t.sim += 1;
    engine::rec().ctr[ctr::FILE_OP] += 1;
    let r = match file(bytes(p)) {
        Some(f) if f.fd >= 0 => {
            f.fd = -1;
            0
        }
        _ => fail(libc::ENOENT),
    };
    t.sim -= 1;
    Some(r)
}
pub unsafe fn rename(a: *const c_char, b: *const c_char) -> Option<isize> {
    let t = in_call()?;
    t.sim += 1;
    engine::rec().ctr[ctr::FILE_OP] += 1;
    let from = file(bytes(a)).map_or(-1, |f| f.fd);
    let r = match file(bytes(b)) {
        Some(f) if from >= 0 => {
            f.fd = from;
            file(bytes(a)).unwrap().fd = -1;
            0
        }
        _ => fail(libc::ENOENT),
    };
    t.sim -= 1;
    Some(r)
}
/// Streams of the terminal: what a call prints goes nowhere, or (the reader is gone) fails; nobody types.
pub unsafe fn printed(fd: c_int, n: size_t) -> Option<isize> {
    if fd != 1 && fd != 2 {
        return None;
    }
    in_call()?;
    engine::rec().ctr[ctr::FILE_OP] += 1;
    let g = engine::g();
    Some(if g.scarce && mix(g.env_seed ^ 0x57D0 ^ fd as u64) % 4 == 0 { fail(libc::EPIPE) } else { n as isize })
}
pub unsafe fn typed(fd: c_int) -> Option<isize> {
    (fd == 0 && in_call().is_some()).then_some(0)
}

/// Exists or not; -1 with errno, as the C functions answer.
unsafe fn exists(p: *const c_char) -> Option<(c_int, isize)> {
    let t = in_call()?;
    t.sim += 1;
    engine::rec().ctr[ctr::FILE_OP] += 1;
    let fd = file(bytes(p)).map_or(-1, |f| f.fd);
    t.sim -= 1;
    Some((fd, if fd < 0 { fail(libc::ENOENT) } else { 0 }))
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    let real = |d: c_int, p: *const c_char, flags: c_int| {
        ret(sys6(libc::SYS_statx, d as usize, p as usize, flags as usize, mask as usize, out as usize, 0)) as c_int
    };
    if in_call().is_none() || p.is_null() {
        return real(d, p, flags);
    }
    let r = if *p == 0 {
        real(d, p, flags)
    } else {
        match exists(p) {
            Some((fd, 0)) => real(fd, c"".as_ptr(), libc::AT_EMPTY_PATH),
            _ => -1,
        }
    };
    if r == 0 {
        let s = &mut *out;
        let h = mix(engine::g().env_seed ^ 0x57A7);
        for t in [&mut s.stx_atime, &mut s.stx_mtime, &mut s.stx_ctime, &mut s.stx_btime] {
            t.tv_sec = (h >> 20) as i64 % 2_000_000_000;
            t.tv_nsec = (h % 1_000_000_000) as u32;
        }
        s.stx_ino = h >> 30;
        s.stx_dev_minor = h as u32 & 0xff;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, mode: c_int) -> c_int {
    match exists(p) {
        Some((_, r)) => r as c_int,
        None => ret(sys6(libc::SYS_access, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, p: *const c_char, mode: c_int, flags: c_int) -> c_int {
    match exists(p) {
        Some((_, r)) => r as c_int,
        None => ret(sys6(libc::SYS_faccessat, d as usize, p as usize, mode as usize, flags as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, mode: libc::mode_t) -> c_int {
    match exists(p) {
        Some((fd, _)) => (if fd < 0 { 0 } else { fail(libc::EEXIST) }) as c_int,
        None => ret(sys6(libc::SYS_mkdir, p as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    match exists(p) {
        Some(_) => fail(libc::ENOENT) as c_int,
        None => ret(sys6(libc::SYS_rmdir, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    match exists(p) {
        Some(_) => fail(libc::ENOENT) as c_int,
        None => ret(sys6(libc::SYS_chdir, p as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: libc::mode_t) -> c_int {
    match exists(p) {
        Some((_, r)) => r as c_int,
        None => ret(sys6(libc::SYS_chmod, p as usize, m as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if let Some((_, _)) = exists(p) {
        fail(libc::ENOENT);
        return core::ptr::null_mut();
    }
    let real: extern "C" fn(*const c_char) -> *mut libc::DIR =
        core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"opendir".as_ptr()));
    real(p)
}
/// Text for a place that holds names: "/home/<word>".
unsafe fn place(tag: u64, out: *mut u8, n: usize) -> usize {
    engine::rec().ctr[ctr::ENV_READ] += 1;
    let v = text(mix(engine::g().env_seed ^ tag));
    let pre = b"/home/";
    let mut k = 0;
    for b in pre.iter().chain(v.iter()) {
        if k < n {
            *out.add(k) = *b;
            k += 1;
        }
    }
    k
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, out: *mut c_char, n: size_t) -> libc::ssize_t {
    if in_call().is_some() {
        if bytes(p) == b"/proc/self/exe" {
            return place(0xE8E, out as *mut u8, n) as isize;
        }
        return fail(libc::EINVAL);
    }
    ret(sys6(libc::SYS_readlink, p as usize, out as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(out: *mut c_char, n: size_t) -> *mut c_char {
    if in_call().is_some() && !out.is_null() && n > 0 {
        let k = place(0xC3D, out as *mut u8, n - 1);
        *out.add(k) = 0;
        return out;
    }
    let real: extern "C" fn(*mut c_char, size_t) -> *mut c_char =
        core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"getcwd".as_ptr()));
    real(out, n)
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if in_call().is_some() {
        fail(libc::ENOENT);
        return core::ptr::null_mut();
    }
    let real: extern "C" fn(*const c_char, *mut c_char) -> *mut c_char =
        core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"realpath".as_ptr()));
    real(p, out)
}
/// A lock on a file that somebody else holds: wait, as long as the others run.
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, op: c_int) -> c_int {
    if let Some(t) = in_call() {
        loop {
            let r = sys6(libc::SYS_flock, fd as usize, (op | libc::LOCK_NB) as usize, 0, 0, 0, 0);
            if r != -(libc::EWOULDBLOCK as isize) || op & libc::LOCK_NB != 0 {
                return ret(r) as c_int;
            }
            engine::rotate(t);
        }
    }
    ret(sys6(libc::SYS_flock, fd as usize, op as usize, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- other ways out

#[no_mangle]
pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
    if in_call().is_some() {
        return fail(libc::ENETDOWN) as c_int;
    }
    ret(sys6(libc::SYS_socket, d as usize, t as usize, p as usize, 0, 0, 0)) as c_int
}
/// A call ends the whole program.
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if let Some(t) = in_call() {
        engine::rec().fail(crate::shared::fk::CRASH, code as u32, t.owner, t.op, [0; 6], None);
        engine::finish();
    }
    let real: extern "C" fn(c_int) -> ! = core::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr()));
    real(code)
}

// ---------------------------------------------------------------- program and processor

static mut ARGV: *mut *const c_char = core::ptr::null_mut();
static mut ARGC: usize = 0;
extern "C" fn at_start(n: c_int, v: *mut *const c_char, _e: *const *const c_char) {
    unsafe {
        ARGV = v;
        ARGC = n as usize;
    }
}
#[used]
#[link_section = ".init_array"]
static AT_START: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = at_start;

/// The words where the standard library remembers what the processor can do.
static mut CPU: *mut usize = core::ptr::null_mut();

/// Find them (once, before any fork).
pub fn prepare() {
    let _ = std::is_x86_feature_detected!("avx");
    unsafe {
        CPU = find_cpu().unwrap_or(core::ptr::null_mut());
        if !CPU.is_null() && *CPU >> 63 == 0 {
            CPU = core::ptr::null_mut();
        }
    }
}
pub fn cpu_simulated() -> bool {
    unsafe { !CPU.is_null() }
}

unsafe fn find_cpu() -> Option<*mut usize> {
    let elf = std::fs::read("/proc/self/exe").ok()?;
    let u64_at = |o: usize| Some(u64::from_le_bytes(elf.get(o..o + 8)?.try_into().ok()?) as usize);
    let u32_at = |o: usize| Some(u32::from_le_bytes(elf.get(o..o + 4)?.try_into().ok()?) as usize);
    let u16_at = |o: usize| Some(u16::from_le_bytes(elf.get(o..o + 2)?.try_into().ok()?) as usize);
    let (shoff, shsize, shn) = (u64_at(0x28)?, u16_at(0x3a)?, u16_at(0x3c)?);
    let (mut cache, mut own) = (None, None);
    for i in 0..shn {
        let s = shoff + i * shsize;
        if u32_at(s + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64_at(s + 24)?, u64_at(s + 32)?, u32_at(s + 40)?);
        let str_off = u64_at(shoff + link * shsize + 24)?;
        for k in 0..size / 24 {
            let e = off + k * 24;
            let name = &elf[str_off + u32_at(e)?..];
            let name = &name[..name.iter().position(|b| *b == 0)?];
            let text = core::str::from_utf8(name).unwrap_or("");
            if text == "getenv" && u64_at(e + 8)? != 0 {
                own = Some(u64_at(e + 8)?);
            }
            if text.contains("std_detect") && text.contains("5cache5CACHE") && u64_at(e + 16)? == 24 {
                cache = Some(u64_at(e + 8)?);
            }
        }
    }
    let slide = (crate::interpose::getenv as *const () as usize).checked_sub(own?)?;
    Some((cache? + slide) as *mut usize)
}

/// The names of environment variables the code under test may ask for.
static COMMON_NAMES: [&[u8]; 6] = [b"HOME", b"PATH", b"LANG", b"USER", b"TZ", b"TMPDIR"];

/// The world of this run (in its process, before any call).
pub fn begin(env_seed: u64) {
    if env_seed == 0 {
        return;
    }
    unsafe {
        let h = mix(env_seed ^ 0x3017D);
        // processor: what it can do for real, or less
        if !CPU.is_null() && h % 3 != 0 {
            for i in 0..3 {
                let m = if h % 3 == 1 { 0 } else { mix(h ^ i) as usize };
                *CPU.add(i as usize) &= m | 1 << 63;
            }
        }
        // arguments of the program
        for i in 0..ARGC {
            let x = mix(h ^ 0xA26 ^ i as u64);
            let p = ARGV.add(i);
            *p = if i > 0 && x % 4 == 0 { core::ptr::null() } else { word(x >> 8).as_ptr() as *const c_char };
        }
        // environment variables: the same answers as for each name alone
        let dict = &*core::ptr::addr_of!(ENV_WORDS);
        let mut v: Vec<*const c_char> = vec![];
        let names = dict.iter().map(|w| &w[..w.len() - 1]).filter(|w| {
            w.len() > 1 && w[0].is_ascii_uppercase() && w.iter().all(|b| b.is_ascii_uppercase() || b.is_ascii_digit() || *b == b'_')
        });
        for n in names.chain(COMMON_NAMES) {
            if let Some(val) = crate::interpose::env_value(n) {
                let mut e = n.to_vec();
                e.push(b'=');
                e.extend_from_slice(val);
                e.push(0);
                v.push(Box::leak(e.into_boxed_slice()).as_ptr() as *const c_char);
            }
        }
        v.push(core::ptr::null());
        crate::interpose::environ = Box::leak(v.into_boxed_slice()).as_ptr();
    }
}

/// A name for caller `i` (as long as names are given at all in this run).
pub fn thread_name(env_seed: u64, i: usize) -> Option<String> {
    let h = mix(env_seed ^ 0x7A3E);
    if env_seed == 0 || h % 3 == 0 {
        return None;
    }
    let x = mix(h ^ i as u64);
    Some(match x % 6 {
        0 => "main".into(),
        1 => format!("worker-{}", x >> 40 & 15),
        2 => "tokio-runtime-worker".into(),
        3 => format!("{i}"),
        _ => String::from_utf8_lossy(unsafe { text(x >> 8) }).into_owned(),
    })
}
