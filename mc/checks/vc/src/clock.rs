//! Per-thread virtual clock behind `std::time::{Instant, SystemTime}`.
//!
//! The executable defines `clock_gettime` itself; threads that did not opt in get the real clock.

use std::cell::Cell;

#[derive(Clone, Copy)]
struct Virtual {
    mono_ns: i128,
    real_ns: i128,
}

thread_local! {
    static VIRTUAL: Cell<Option<Virtual>> = const { Cell::new(None) };
    static SOURCE: Cell<Option<fn() -> u64>> = const { Cell::new(None) };
}

/// # Safety
/// Called by libc users with a valid pointer.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some(v)) = VIRTUAL.try_with(|v| v.get()) {
        // The source may look at the clock itself.
        let source = SOURCE.try_with(|s| s.take()).unwrap_or(None);
        let passed = source.map_or(0, |f| f()) as i128;
        let _ = SOURCE.try_with(|s| s.set(source));
        let v = Virtual { mono_ns: v.mono_ns + passed, real_ns: v.real_ns + passed };
        let ns = match clk {
            libc::CLOCK_MONOTONIC | libc::CLOCK_BOOTTIME | libc::CLOCK_MONOTONIC_COARSE => Some(v.mono_ns),
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => Some(v.real_ns),
            _ => None,
        };
        if let Some(ns) = ns {
            (*ts).tv_sec = (ns / 1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = (ns % 1_000_000_000) as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

/// Starts virtual time on this thread: both clocks stand still until advanced.
pub fn start(unix_seconds: u64) {
    VIRTUAL.with(|v| {
        v.set(Some(Virtual {
            mono_ns: 1_000_000_000_000_000,
            real_ns: unix_seconds as i128 * 1_000_000_000,
        }))
    });
}

pub fn advance_ns(ns: u64) {
    VIRTUAL.with(|v| {
        let mut x = v.get().expect("virtual clock not started");
        x.mono_ns += ns as i128;
        x.real_ns += ns as i128;
        v.set(Some(x));
    });
}

pub fn advance_ms(ms: u64) {
    advance_ns(ms * 1_000_000)
}

pub fn advance_secs(s: u64) {
    advance_ns(s * 1_000_000_000)
}

/// From now on the clocks of this thread show, in addition, the nanoseconds given by the function.
pub fn follow(source: Option<fn() -> u64>) {
    SOURCE.with(|s| s.set(source));
}

/// Back to the real clock.
pub fn stop() {
    SOURCE.with(|s| s.set(None));
    VIRTUAL.with(|v| v.set(None));
}

/// Current virtual reading (monotonic, real), to hand over to another thread.
pub fn reading() -> Option<(i128, i128)> {
    VIRTUAL.with(|v| v.get().map(|v| (v.mono_ns, v.real_ns)))
}

pub fn set_reading(r: Option<(i128, i128)>) {
    VIRTUAL.with(|v| v.set(r.map(|(mono_ns, real_ns)| Virtual { mono_ns, real_ns })));
}
