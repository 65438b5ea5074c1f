//! The simulated disk: a few files in memory that survives the process, and a reader and a writer
//! that split, interrupt, refuse and cut transfers as the plan says.
use serde::{Deserialize, Serialize};
use simcore::engine::rec;
use simcore::raw;
use simcore::rng::Rng;
use simcore::shared::ctr;
use std::io::{self, Read, Write};

pub const NSLOT: usize = 12;
const HEAD: usize = 64;
const SIZE: usize = 64 << 10;
pub const CAP: usize = SIZE - HEAD;
/// exit code of a simulated power failure
pub const CRASHED: i32 = 77;

#[derive(Clone, Copy, Debug, Default, PartialEq)]
#[repr(C)]
pub struct Head {
    pub len: u64,
    /// 0: nothing, 1: completely saved, 2: damaged or partial
    pub state: u32,
    /// index of the object description
    pub obj: u32,
    /// family, wrapper
    pub fam: u8,
    pub wrap: u8,
    /// saved by the frozen release
    pub side: u8,
    /// the version that built the object in the first place
    pub origin: u8,
    /// 0: may load, 1: must be rejected, 2: must be rejected if fields are looked up by name
    pub must: u8,
    pub pad: [u8; 11],
}

fn at(slot: usize) -> *mut u8 {
    assert!(slot < NSLOT);
    unsafe { rec().disk.as_mut_ptr().add(slot * SIZE) }
}
pub fn head(slot: usize) -> Head {
    unsafe { (at(slot) as *const Head).read_unaligned() }
}
pub fn set_head(slot: usize, h: Head) {
    unsafe { (at(slot) as *mut Head).write_unaligned(h) }
}
pub fn bytes(slot: usize) -> Vec<u8> {
    let h = head(slot);
    unsafe { std::slice::from_raw_parts(at(slot).add(HEAD), (h.len as usize).min(CAP)) }.to_vec()
}
pub fn put(slot: usize, b: &[u8]) {
    let n = b.len().min(CAP);
    unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), at(slot).add(HEAD), n) };
    let mut h = head(slot);
    h.len = n as u64;
    set_head(slot, h);
}
/// All files gone; for the parent process, which passes the record explicitly.
pub fn format(disk: &mut [u8]) {
    for s in 0..NSLOT {
        disk[s * SIZE..s * SIZE + HEAD].fill(0);
    }
}

/// What happens to one transfer.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Io {
    /// splits and interruptions; 0: none
    #[serde(default, skip_serializing_if = "is0")]
    pub split: u64,
    /// use a BufReader / BufWriter
    #[serde(default)]
    pub buf: bool,
    /// from this byte on: 0 i/o error, 1 disk full, 2 nothing accepted / end of file, 3 would block,
    /// 4 timed out
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub fail: Option<(u64, u8)>,
    /// the machine stops when this byte is transferred
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub crash: Option<u64>,
    /// the format fails at this event (simulator's own format only)
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub event: Option<u64>,
    /// write over the old contents in place instead of starting with an empty file
    #[serde(default)]
    pub inplace: bool,
    /// the failure happens once, a further attempt to go on would succeed
    #[serde(default)]
    pub once: bool,
}
fn is0(x: &u64) -> bool {
    *x == 0
}

pub struct Medium {
    slot: usize,
    pos: usize,
    io: Io,
    rng: Rng,
    len: usize,
    pub fired: bool,
    pub calls: u32,
}

fn error(kind: u8) -> io::Error {
    let c = &mut rec().ctr;
    match kind {
        1 => {
            c[ctr::IO_ENOSPC] += 1;
            io::Error::from_raw_os_error(28)
        }
        3 => {
            c[ctr::IO_EIO] += 1;
            io::Error::from(io::ErrorKind::WouldBlock)
        }
        4 => {
            c[ctr::IO_EIO] += 1;
            io::Error::from(io::ErrorKind::TimedOut)
        }
        _ => {
            c[ctr::IO_EIO] += 1;
            io::Error::from_raw_os_error(5)
        }
    }
}

impl Medium {
    pub fn reader(slot: usize, io: &Io) -> Medium {
        Medium { slot, pos: 0, io: io.clone(), rng: Rng::new(io.split), len: head(slot).len as usize, fired: false, calls: 0 }
    }
    pub fn writer(slot: usize, io: &Io) -> Medium {
        let mut h = head(slot);
        if !io.inplace {
            h.len = 0;
        }
        set_head(slot, h);
        Medium { slot, pos: 0, io: io.clone(), rng: Rng::new(io.split), len: h.len as usize, fired: false, calls: 0 }
    }
    pub fn written(&self) -> usize {
        self.pos
    }
    /// How much of `n` is transferred now; Err: what the caller gets instead.
    fn step(&mut self, n: usize, read: bool) -> io::Result<usize> {
        self.calls += 1;
        rec().ctr[if read { ctr::IO_READ } else { ctr::IO_WRITE }] += 1;
        let mut m = n;
        if self.io.split != 0 {
            // interruptions come in bounded numbers
            if self.calls < 2000 && self.rng.chance(0.1) {
                rec().ctr[ctr::IO_EINTR] += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            let k = match self.rng.usize(4) {
                0 => 1,
                1 => 1 + self.rng.usize(7),
                2 => 1 + self.rng.usize(64),
                _ => m,
            };
            if k < m {
                m = k;
                rec().ctr[ctr::IO_SHORT] += 1;
            }
        }
        if let Some(c) = self.io.crash {
            let c = c as usize;
            if self.pos <= c && c < self.pos + m {
                // what was transferred before stays
                self.io.crash = Some(u64::MAX);
                return Ok(c - self.pos + (1 << 40));
            }
        }
        if let Some((at, kind)) = self.io.fail {
            let at = at as usize;
            // (the end of a file stays the end)
            if self.pos >= at && !(self.io.once && self.fired && kind != 2) {
                self.fired = true;
                if kind == 2 {
                    rec().ctr[ctr::IO_EOF] += 1;
                    return Ok(0);
                }
                return Err(error(kind));
            }
            if self.pos < at && self.pos + m > at {
                m = at - self.pos;
                rec().ctr[ctr::IO_SHORT] += 1;
            }
        }
        Ok(m)
    }
}

fn die() -> ! {
    rec().ctr[ctr::CRASHPOINT] += 1;
    raw::exit_now(CRASHED)
}

impl Write for Medium {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = self.step(b.len(), false)?;
        let crash = n >= 1 << 40;
        if crash {
            n -= 1 << 40;
        }
        if self.pos + n > CAP {
            return Err(error(1));
        }
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), at(self.slot).add(HEAD + self.pos), n) };
        self.pos += n;
        let mut h = head(self.slot);
        h.len = h.len.max(self.pos as u64);
        set_head(self.slot, h);
        if crash {
            die();
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Read for Medium {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.len - self.pos);
        if n == 0 {
            if b.is_empty() {
                return Ok(0);
            }
            // the end is reported, or not even that
            if let Some((at, kind)) = self.io.fail {
                if self.pos >= at as usize && kind != 2 && !(self.io.once && self.fired) {
                    self.fired = true;
                    return Err(error(kind));
                }
            }
            return Ok(0);
        }
        let n = self.step(n, true)?;
        if n >= 1 << 40 {
            die();
        }
        unsafe { std::ptr::copy_nonoverlapping(at(self.slot).add(HEAD + self.pos), b.as_mut_ptr(), n) };
        self.pos += n;
        Ok(n)
    }
}
