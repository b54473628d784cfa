//! Receives the control-flow events of the instrumented library (SanitizerCoverage callbacks).
//! The library is compiled with `trace-pc-guard` and `trace-compares`; everything else is not.
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const MAPSZ: usize = 1 << 16;
static NGUARDS: AtomicU32 = AtomicU32::new(0);
static mut MAP: [u8; MAPSZ] = [0; MAPSZ];

thread_local! {
    /// control-flow edges executed on this thread since the last reset
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    /// only the thread that runs cases records coverage
    static RECORD: Cell<bool> = const { Cell::new(false) };
}

pub type LimitFn = fn();
static ON_LIMIT: AtomicUsize = AtomicUsize::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

pub fn on_limit(f: LimitFn) {
    ON_LIMIT.store(f as usize, Relaxed);
}
pub fn guards() -> u32 {
    NGUARDS.load(Relaxed)
}
pub fn instrumented() -> bool {
    guards() > 0
}
pub fn record(on: bool) {
    RECORD.with(|r| r.set(on));
}
pub fn reset_steps(limit: u64) {
    TOTAL.fetch_add(steps(), Relaxed);
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
}
pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}
pub fn clear_map() {
    let n = guards() as usize + 1;
    unsafe {
        let m = std::ptr::addr_of_mut!(MAP) as *mut u8;
        std::ptr::write_bytes(m, 0, n.min(MAPSZ));
    }
}
/// Merges the current map into `seen` (bucketed hit counts). Returns (new features, new edges).
pub fn merge(seen: &mut [u8]) -> (usize, usize) {
    let n = (guards() as usize + 1).min(MAPSZ);
    let mut new = 0;
    let mut edges = 0;
    let m = std::ptr::addr_of!(MAP) as *const u8;
    let mut i = 0;
    while i < n {
        let v = unsafe { *m.add(i) };
        if v != 0 {
            let b: u8 = match v {
                1 => 1,
                2 => 2,
                3 => 4,
                4..=7 => 8,
                8..=15 => 16,
                16..=31 => 32,
                32..=127 => 64,
                _ => 128,
            };
            if seen[i] & b == 0 {
                if seen[i] == 0 {
                    edges += 1;
                }
                seen[i] |= b;
                new += 1;
            }
        }
        i += 1;
    }
    (new, edges)
}

const NCONST: usize = 512;
static CONSTS: [AtomicU64; NCONST] = [const { AtomicU64::new(0) }; NCONST];

#[inline]
fn note(c: u64) {
    if !(3..=20_000).contains(&c) {
        return;
    }
    let h = (c.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 55) as usize % NCONST;
    CONSTS[h].store(c, Relaxed);
}
/// Constants the library compared something against while running.
pub fn const_operands() -> Vec<u64> {
    let mut v: Vec<u64> = CONSTS.iter().map(|c| c.load(Relaxed)).filter(|c| *c != 0).collect();
    v.sort();
    v.dedup();
    v
}

#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    let mut p = start;
    while p < stop {
        if *p == 0 {
            *p = NGUARDS.fetch_add(1, Relaxed) + 1;
        }
        p = p.add(1);
    }
}
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let s = STEPS.with(|s| {
        let v = s.get() + 1;
        s.set(v);
        v
    });
    if s > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        let f = ON_LIMIT.load(Relaxed);
        if f != 0 {
            let f: LimitFn = std::mem::transmute(f);
            f();
        }
    }
    if RECORD.with(|r| r.get()) {
        let i = *g as usize;
        if i < MAPSZ {
            let m = (std::ptr::addr_of_mut!(MAP) as *mut u8).add(i);
            *m = (*m).saturating_add(1);
        }
    }
}
macro_rules! cmps {
    ($($plain:ident $konst:ident $t:ty),*) => {$(
        #[no_mangle] extern "C" fn $plain(_a: $t, _b: $t) {}
        #[no_mangle] extern "C" fn $konst(a: $t, _b: $t) { note(a as u64); }
    )*};
}
cmps!(
    __sanitizer_cov_trace_cmp1 __sanitizer_cov_trace_const_cmp1 u8,
    __sanitizer_cov_trace_cmp2 __sanitizer_cov_trace_const_cmp2 u16,
    __sanitizer_cov_trace_cmp4 __sanitizer_cov_trace_const_cmp4 u32,
    __sanitizer_cov_trace_cmp8 __sanitizer_cov_trace_const_cmp8 u64
);
#[no_mangle]
unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    let n = *cases as usize;
    if n < 64 {
        for i in 0..n {
            note(*cases.add(2 + i));
        }
    }
}
