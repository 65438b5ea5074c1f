#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! A file system in memory behind the libc entry points the standard library uses for files.
//! Off (everything goes to the kernel) except in a process that runs the example.
use libc::{c_char, c_int, c_void, iovec, mode_t, off_t, size_t, ssize_t};
use serde::{Deserialize, Serialize};
use simcore::engine::rec;
use simcore::raw::sys6;
use simcore::shared::ctr;
use simcore::world;
use std::collections::BTreeMap;

/// What happens to the n-th call.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Strike {
    /// fails with this errno
    Err(i32),
    /// transfers only so many bytes
    Short(u16),
    /// transfers some bytes, and the next call fails with this errno
    Torn(u16, i32),
    /// the machine stops after so many bytes
    Crash(u16),
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Faults {
    /// (number of the call, what): calls that open or create
    #[serde(default)]
    pub open: Vec<(u32, Strike)>,
    #[serde(default)]
    pub write: Vec<(u32, Strike)>,
    /// other calls on files: sync, truncate, rename, close
    #[serde(default)]
    pub other: Vec<(u32, Strike)>,
    /// from this call on every write fails with the errno
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub dead: Option<(u32, i32)>,
    /// bytes that fit on the disk
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub room: Option<u64>,
    /// every write is split; seed
    #[serde(default)]
    pub split: u64,
}

pub const CRASHED: i32 = 77;

#[derive(Default)]
pub struct Fs {
    on: bool,
    pub files: BTreeMap<String, Vec<u8>>,
    fds: BTreeMap<c_int, (String, usize, bool)>,
    faults: Faults,
    nopen: u32,
    nwrite: u32,
    nother: u32,
    torn: Option<i32>,
    rng: u64,
    /// consecutive interruptions
    eintr: u32,
    pub fired: u32,
    /// called when the machine stops
    stop: Option<fn(&Fs)>,
}
static mut FS: *mut Fs = core::ptr::null_mut();

fn fs() -> Option<&'static mut Fs> {
    unsafe { FS.as_mut().filter(|f| f.on) }
}
/// Switch it on, in this process, for good.
pub fn start(files: BTreeMap<String, Vec<u8>>, faults: Faults, stop: fn(&Fs)) {
    let f = Fs { files, rng: faults.split | 1, faults, stop: Some(stop), ..Default::default() };
    unsafe {
        FS = Box::into_raw(Box::new(f));
        (*FS).on = true;
    }
}
pub fn finish() -> Option<&'static mut Fs> {
    let f = fs()?;
    f.on = false;
    Some(f)
}

fn err(e: i32) -> isize {
    let c = &mut rec().ctr;
    c[match e {
        libc::ENOSPC | libc::EDQUOT | libc::EFBIG => ctr::IO_ENOSPC,
        libc::EINTR => ctr::IO_EINTR,
        _ => ctr::IO_EIO,
    }] += 1;
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn text(p: *const c_char) -> String {
    String::from_utf8_lossy(core::ffi::CStr::from_ptr(p).to_bytes()).into_owned()
}

impl Fs {
    fn find(v: &[(u32, Strike)], n: u32) -> Option<Strike> {
        v.iter().find(|x| x.0 == n).map(|x| x.1)
    }
    fn crash(&mut self) -> ! {
        rec().ctr[ctr::CRASHPOINT] += 1;
        self.on = false;
        if let Some(s) = self.stop {
            s(self);
        }
        simcore::raw::exit_now(CRASHED)
    }
    fn open(&mut self, path: String, flags: c_int) -> isize {
        let n = self.nopen;
        self.nopen += 1;
        match Self::find(&self.faults.open, n) {
            Some(Strike::Err(e)) => {
                self.fired += 1;
                return err(e);
            }
            Some(Strike::Crash(_)) => self.crash(),
            _ => {}
        }
        let have = self.files.contains_key(&path);
        if !have && flags & libc::O_CREAT == 0 {
            return err(libc::ENOENT);
        }
        if have && flags & libc::O_EXCL != 0 && flags & libc::O_CREAT != 0 {
            return err(libc::EEXIST);
        }
        let b = self.files.entry(path.clone()).or_default();
        if flags & libc::O_TRUNC != 0 {
            b.clear();
        }
        let at = 0;
        // high numbers, apart from real descriptors
        let fd = (1000..).find(|k| !self.fds.contains_key(k)).unwrap();
        self.fds.insert(fd, (path, at, flags & libc::O_APPEND != 0));
        fd as isize
    }
    fn used(&self) -> u64 {
        self.files.values().map(|f| f.len() as u64).sum()
    }
    fn put(&mut self, fd: c_int, b: &[u8], at: Option<usize>) -> isize {
        let n = self.nwrite;
        self.nwrite += 1;
        rec().ctr[ctr::IO_WRITE] += 1;
        if b.is_empty() {
            return 0;
        }
        let mut k = b.len();
        let mut crash = false;
        if let Some(e) = self.torn.take() {
            self.fired += 1;
            return err(e);
        }
        if let Some((from, e)) = self.faults.dead {
            if n >= from {
                self.fired += 1;
                return err(e);
            }
        }
        match Self::find(&self.faults.write, n) {
            Some(Strike::Err(e)) => {
                self.fired += 1;
                return err(e);
            }
            Some(Strike::Short(m)) => {
                self.fired += 1;
                rec().ctr[ctr::IO_SHORT] += 1;
                k = k.min(m as usize);
            }
            Some(Strike::Torn(m, e)) => {
                self.fired += 1;
                rec().ctr[ctr::IO_SHORT] += 1;
                k = k.min(m.max(1) as usize);
                self.torn = Some(e);
            }
            Some(Strike::Crash(m)) => {
                k = k.min(m as usize);
                crash = true;
            }
            None => {}
        }
        if self.faults.split != 0 {
            self.rng = simcore::rng::mix(self.rng);
            if self.rng % 5 == 0 && self.eintr < 8 {
                self.eintr += 1;
                return err(libc::EINTR);
            }
            self.eintr = 0;
            let m = match self.rng >> 8 & 3 {
                0 => 1,
                1 => 1 + (self.rng >> 16) as usize % 16,
                2 => 1 + (self.rng >> 16) as usize % 200,
                _ => k,
            };
            if m < k {
                rec().ctr[ctr::IO_SHORT] += 1;
                k = m;
            }
        }
        if let Some(r) = self.faults.room {
            let left = r.saturating_sub(self.used()) as usize;
            if left == 0 {
                self.fired += 1;
                return err(libc::ENOSPC);
            }
            k = k.min(left);
        }
        let Some((path, pos, app)) = self.fds.get_mut(&fd) else { return err(libc::EBADF) };
        // (a file that was removed while open is gone)
        let Some(f) = self.files.get_mut(path) else { return k as isize };
        let p = at.unwrap_or(if *app { f.len() } else { *pos });
        if f.len() < p + k {
            f.resize(p + k, 0);
        }
        f[p..p + k].copy_from_slice(&b[..k]);
        if at.is_none() {
            *pos = p + k;
        }
        if crash {
            self.crash();
        }
        k as isize
    }
    fn other(&mut self) -> Option<isize> {
        let n = self.nother;
        self.nother += 1;
        match Self::find(&self.faults.other, n)? {
            Strike::Err(e) | Strike::Torn(_, e) => {
                self.fired += 1;
                Some(err(e))
            }
            Strike::Crash(_) => self.crash(),
            Strike::Short(_) => None,
        }
    }
    fn mine(&self, fd: c_int) -> bool {
        self.fds.contains_key(&fd)
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(f) = fs() {
        return f.open(text(p), flags) as c_int;
    }
    if let Some(r) = world::open(p, flags) {
        return r as c_int;
    }
    ret(sys6(libc::SYS_open, p as usize, flags as usize, mode as usize, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    open64(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(f) = fs() {
        return f.open(text(p), flags) as c_int;
    }
    if let Some(r) = world::open(p, flags) {
        return r as c_int;
    }
    ret(sys6(libc::SYS_openat, d as usize, p as usize, flags as usize, mode as usize, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openat64(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if let Some(f) = fs() {
        if f.mine(fd) {
            return f.put(fd, core::slice::from_raw_parts(p as *const u8, n), None);
        }
        // messages to the terminal
        return n as ssize_t;
    }
    if let Some(r) = world::printed(fd, n) {
        return r;
    }
    ret(sys6(libc::SYS_write, fd as usize, p as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: size_t, at: off_t) -> ssize_t {
    if let Some(f) = fs() {
        if f.mine(fd) {
            return f.put(fd, core::slice::from_raw_parts(p as *const u8, n), Some(at as usize));
        }
    }
    ret(sys6(libc::SYS_pwrite64, fd as usize, p as usize, n, at as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    if let Some(f) = fs() {
        let mut b: Vec<u8> = vec![];
        for i in 0..n as usize {
            let x = &*v.add(i);
            b.extend_from_slice(core::slice::from_raw_parts(x.iov_base as *const u8, x.iov_len));
        }
        if f.mine(fd) {
            return f.put(fd, &b, None);
        }
        return b.len() as ssize_t;
    }
    if let Some(r) = world::printed(fd, (0..n as usize).map(|i| (*v.add(i)).iov_len).sum()) {
        return r;
    }
    ret(sys6(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: size_t) -> ssize_t {
    if let Some(f) = fs() {
        if let Some((path, pos, _)) = f.fds.get_mut(&fd) {
            let b: &[u8] = f.files.get(path).map_or(&[], |b| b.as_slice());
            let k = n.min(b.len().saturating_sub(*pos));
            core::ptr::copy_nonoverlapping(b[b.len().min(*pos)..].as_ptr(), p as *mut u8, k);
            *pos += k;
            return k as ssize_t;
        }
    }
    if let Some(r) = world::typed(fd) {
        return r;
    }
    ret(sys6(libc::SYS_read, fd as usize, p as usize, n, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    if let Some(f) = fs() {
        let len = f.fds.get(&fd).and_then(|x| f.files.get(&x.0)).map_or(0, |b| b.len());
        if let Some((_, pos, _)) = f.fds.get_mut(&fd) {
            let base = match whence {
                libc::SEEK_SET => 0,
                libc::SEEK_CUR => *pos as i64,
                _ => len as i64,
            };
            if base + off < 0 {
                return err(libc::EINVAL) as off_t;
            }
            *pos = (base + off) as usize;
            return *pos as off_t;
        }
    }
    ret(sys6(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off_t
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(f) = fs() {
        if f.mine(fd) {
            f.fds.remove(&fd);
            return f.other().unwrap_or(0) as c_int;
        }
    }
    ret(sys6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if let Some(f) = fs() {
        if f.mine(fd) {
            return f.other().unwrap_or(0) as c_int;
        }
    }
    ret(sys6(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if let Some(f) = fs() {
        if f.mine(fd) {
            return f.other().unwrap_or(0) as c_int;
        }
    }
    ret(sys6(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off_t) -> c_int {
    if let Some(f) = fs() {
        if let Some((path, _, _)) = f.fds.get(&fd) {
            let path = path.clone();
            if let Some(e) = f.other() {
                return e as c_int;
            }
            if let Some(b) = f.files.get_mut(&path) {
                b.resize(n as usize, 0);
            }
            return 0;
        }
    }
    ret(sys6(libc::SYS_ftruncate, fd as usize, n as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(f) = fs() {
        if let Some(e) = f.other() {
            return e as c_int;
        }
        let (a, b) = (text(a), text(b));
        return match f.files.remove(&a) {
            None => err(libc::ENOENT) as c_int,
            Some(x) => {
                f.files.insert(b.clone(), x);
                for v in f.fds.values_mut() {
                    if v.0 == a {
                        v.0 = b.clone();
                    }
                }
                0
            }
        };
    }
    if let Some(r) = world::rename(a, b) {
        return r as c_int;
    }
    ret(sys6(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(f) = fs() {
        if let Some(e) = f.other() {
            return e as c_int;
        }
        return if f.files.remove(&text(a)).is_some() { 0 } else { err(libc::ENOENT) as c_int };
    }
    if let Some(r) = world::unlink(a) {
        return r as c_int;
    }
    ret(sys6(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int
}
