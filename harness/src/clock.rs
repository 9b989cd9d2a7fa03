//! What time it is for the code under test: real, or as a scenario says.
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

thread_local! {
    /// (realtime, monotonic) in nanoseconds, if virtual
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
pub fn freeze() {
    NOW.with(|n| n.set(Some((1_700_000_000_123_456_789, 5_000_000_000_123))));
}
pub fn advance_ms(ms: i64) {
    NOW.with(|n| n.set(n.get().map(|(r, m)| (r + ms * 1_000_000, m + ms * 1_000_000))));
}
/// The system clock is set back.
pub fn step_back_ms(ms: i64) {
    NOW.with(|n| n.set(n.get().map(|(r, m)| (r - ms * 1_000_000, m))));
}
thread_local! {
    /// virtual time began: (in the runtime, realtime, monotonic)
    static RUNTIME: Cell<Option<(tokio::time::Instant, i64, i64)>> = const { Cell::new(None) };
}
/// In this thread the clocks follow the virtual time of its runtime (or they do so no more).
pub fn follow(on: bool) {
    RUNTIME.with(|r| r.set(None));
    if on {
        let (a, b) = (raw(libc::CLOCK_REALTIME), raw(libc::CLOCK_MONOTONIC));
        let t = tokio::time::Instant::now();
        RUNTIME.with(|r| r.set(Some((t, a, b))));
    }
}
fn raw(clk: libc::clockid_t) -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, clk, &mut ts as *mut _) };
    ts.tv_sec * 1_000_000_000 + ts.tv_nsec
}
/// The time of day goes faster by this factor (from some moment on).
static SPEED: AtomicI64 = AtomicI64::new(1);
static SINCE: AtomicI64 = AtomicI64::new(0);
pub fn speed(f: i64) {
    SINCE.store(raw(libc::CLOCK_REALTIME), SeqCst);
    SPEED.store(f, SeqCst);
}
pub fn thaw() {
    NOW.with(|n| n.set(None));
}
pub fn real_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

/// Asking for the time in this process goes through here.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if let Ok(Some((r, m))) = NOW.try_with(|n| n.get()) {
        let v = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { r } else { m };
        (*ts).tv_sec = v / 1_000_000_000;
        (*ts).tv_nsec = v % 1_000_000_000;
        return 0;
    }
    let wall = clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE;
    if wall || clk == libc::CLOCK_MONOTONIC {
        // Not followed while asking the runtime, which may ask for the time itself.
        if let Ok(Some((t, a, b))) = RUNTIME.try_with(|r| r.take()) {
            let e = tokio::time::Instant::now().saturating_duration_since(t).as_nanos() as i64;
            let _ = RUNTIME.try_with(|r| r.set(Some((t, a, b))));
            let v = if wall { a } else { b } + e;
            (*ts).tv_sec = v / 1_000_000_000;
            (*ts).tv_nsec = v % 1_000_000_000;
            return 0;
        }
        let f = SPEED.load(SeqCst);
        if wall && f != 1 {
            let s = SINCE.load(SeqCst);
            let v = s + (raw(libc::CLOCK_REALTIME) - s) * f;
            (*ts).tv_sec = v / 1_000_000_000;
            (*ts).tv_nsec = v % 1_000_000_000;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}
