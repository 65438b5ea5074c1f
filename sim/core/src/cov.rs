//! Callbacks inserted by sanitizer coverage into the instrumented crates: every basic block, load
//! and store of the code under test is a place where the scheduler may step in.
use crate::engine;

pub static mut COV: *mut u8 = core::ptr::null_mut();
pub static mut NGUARD: u32 = 0;
pub const COVMAX: usize = 1 << 20;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    if start == stop || *start != 0 {
        return;
    }
    while p < stop {
        NGUARD += 1;
        *p = NGUARD;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    engine::tick_edge(*g)
}

macro_rules! mem {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: usize) { engine::tick_mem(a) }
    )* };
}
mem! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
    __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
    __sanitizer_cov_store8 __sanitizer_cov_store16
}

/// Number of distinct instrumented edges reached so far by any run.
pub fn edges() -> (u64, u64) {
    unsafe {
        if COV.is_null() {
            return (0, NGUARD as u64);
        }
        let mut k = 0;
        for i in 0..(NGUARD as usize + 1).min(COVMAX) {
            k += (*COV.add(i) != 0) as u64;
        }
        (k, NGUARD as u64)
    }
}
