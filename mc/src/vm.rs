//! Virtual environment: clock and randomness of one execution.
//!
//! `clock_gettime` and `getrandom` are interposed at link time.  A thread that
//! has joined a virtual environment sees a frozen clock which only the harness
//! moves, and a deterministic random stream (so uuids and HashMap iteration
//! order are functions of the execution alone).  All other threads get the real
//! system calls.

use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;
use std::time::Duration;

pub struct Clock(AtomicI64);

impl Clock {
    pub fn new() -> Arc<Clock> {
        Arc::new(Clock(AtomicI64::new(0)))
    }
    pub fn advance(&self, d: Duration) {
        self.0.fetch_add(d.as_nanos() as i64, Ordering::SeqCst);
    }
    pub fn now(&self) -> Duration {
        Duration::from_nanos(self.0.load(Ordering::SeqCst) as u64)
    }
}

thread_local! {
    static CLOCK: Cell<*const Clock> = const { Cell::new(std::ptr::null()) };
    static RNG: Cell<u64> = const { Cell::new(0) };
}

/// Put the calling thread under virtual time (and keep it there).
pub fn join_clock(c: &Arc<Clock>) {
    let raw = Arc::into_raw(c.clone()); // leaked: 8 bytes per execution thread
    CLOCK.with(|p| p.set(raw));
}

pub fn leave_clock() {
    CLOCK.with(|p| {
        let raw = p.replace(std::ptr::null());
        if !raw.is_null() {
            unsafe { drop(Arc::from_raw(raw)) }
        }
    });
}

/// Run `f` on the real clock.
pub fn with_real_clock<R>(f: impl FnOnce() -> R) -> R {
    let saved = CLOCK.with(|p| p.replace(std::ptr::null()));
    let r = f();
    CLOCK.with(|p| p.set(saved));
    r
}

pub fn seed_rng(s: u64) {
    RNG.with(|r| r.set(s | 1));
}

const REAL_BASE: i64 = 1_750_000_000;
const MONO_BASE: i64 = 1_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let p = CLOCK.try_with(|p| p.get()).unwrap_or(std::ptr::null());
    if !p.is_null() {
        let base = match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(REAL_BASE),
            libc::CLOCK_MONOTONIC
            | libc::CLOCK_MONOTONIC_COARSE
            | libc::CLOCK_MONOTONIC_RAW
            | libc::CLOCK_BOOTTIME => Some(MONO_BASE),
            _ => None,
        };
        if let Some(base) = base {
            let off = (*p).0.load(Ordering::SeqCst);
            (*ts).tv_sec = base + off.div_euclid(1_000_000_000);
            (*ts).tv_nsec = off.rem_euclid(1_000_000_000);
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    flags: libc::c_uint,
) -> libc::ssize_t {
    let s = RNG.try_with(|r| r.get()).unwrap_or(0);
    if s == 0 {
        return libc::syscall(libc::SYS_getrandom, buf, len, flags) as libc::ssize_t;
    }
    let mut x = s;
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in out.chunks_mut(8) {
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^= z >> 31;
        for (o, b) in ch.iter_mut().zip(z.to_le_bytes()) {
            *o = b;
        }
    }
    RNG.with(|r| r.set(x | 1));
    len as libc::ssize_t
}
