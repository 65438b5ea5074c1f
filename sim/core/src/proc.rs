//! One simulated run = one forked child of a process that never called the code under test.
use crate::{raw, shared::*};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Exit {
    Ok,
    Code(i32),
    Signal(i32),
    /// killed by the watchdog: nothing moved any more
    Hang,
    /// stopped because it took too long, although calls kept completing
    Slow,
}

const SLOW: i32 = 96;
const HUNG: i32 = 95;
static mut PATIENCE: u32 = 0;
static mut LAST: [u64; 2] = [0; 2];

fn heart() -> u64 {
    let g = crate::engine::g();
    let mut s = unsafe { (*g.rec).ctr[ctr::CALLS] };
    for i in 0..g.n {
        s = s.wrapping_add(g.thr[i].total).wrapping_add(g.thr[i].step);
    }
    s
}

extern "C" fn watchdog(sig: i32) {
    unsafe {
        let k = (sig == libc::SIGALRM) as usize;
        let h = heart();
        if h == LAST[k] {
            raw::exit_now(HUNG);
        }
        LAST[k] = h;
        if PATIENCE == 0 {
            raw::exit_now(if k == 1 || h == 0 { HUNG } else { SLOW });
        }
        PATIENCE -= 1;
    }
}

/// Run `f` in a child process. `f` must not return to the caller's state.
///
/// `cpu_s` seconds of processor time are given again `patience` times, as long as calls are made.
pub fn child(rec: *mut Rec, cpu_s: u32, patience: u32, f: impl FnOnce()) -> Exit {
    unsafe {
        (*rec).reset();
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            crate::engine::g().rec = rec;
            // CPU-time watchdog, plus a generous wall-clock one for a child that sleeps for ever.
            PATIENCE = patience;
            LAST = [0; 2];
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = watchdog as extern "C" fn(i32) as usize;
            sa.sa_flags = libc::SA_RESTART;
            libc::sigaction(libc::SIGPROF, &sa, core::ptr::null_mut());
            libc::sigaction(libc::SIGALRM, &sa, core::ptr::null_mut());
            let arm = |which: usize, s: u32| {
                let tv = libc::timeval { tv_sec: s as i64, tv_usec: 0 };
                let it = libc::itimerval { it_interval: tv, it_value: tv };
                raw::sys6(libc::SYS_setitimer, which, &it as *const _ as usize, 0, 0, 0, 0);
            };
            arm(2, cpu_s);
            arm(0, cpu_s * 6 + 30);
            f();
            (*rec).finished = 1;
            raw::exit_now(0);
        }
        let mut status = 0;
        loop {
            let r = libc::waitpid(pid, &mut status, 0);
            if r == pid {
                break;
            }
        }
        if libc::WIFSIGNALED(status) {
            Exit::Signal(libc::WTERMSIG(status))
        } else {
            match libc::WEXITSTATUS(status) {
                0 => Exit::Ok,
                HUNG => Exit::Hang,
                SLOW => Exit::Slow,
                c => Exit::Code(c),
            }
        }
    }
}

/// Keep this process (and its children) on one processor: handing the baton over is much cheaper.
pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = core::mem::zeroed();
        raw::sys6(libc::SYS_sched_getaffinity, 0, core::mem::size_of_val(&set), &mut set as *mut _ as usize, 0, 0, 0);
        let avail: Vec<usize> = (0..1024).filter(|&i| libc::CPU_ISSET(i, &set)).collect();
        if avail.is_empty() {
            return;
        }
        let c = avail[cpu % avail.len()];
        let mut one: libc::cpu_set_t = core::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        raw::sys6(libc::SYS_sched_setaffinity, 0, core::mem::size_of_val(&one), &one as *const _ as usize, 0, 0, 0);
    }
}
