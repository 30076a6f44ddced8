//! The system clocks as the broker sees them: while it runs they follow the virtual time of its case, so that
//! code reading `std::time` agrees with code reading `tokio::time`.
use std::cell::Cell;

thread_local! {
    static BASE: Cell<Option<tokio::time::Instant>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
/// Virtual time begins now (None: ends).
pub fn start(at: Option<tokio::time::Instant>) {
    BASE.with(|b| b.set(at));
}
fn virtual_ns() -> Option<i128> {
    let base = BASE.try_with(|b| b.get()).ok()??;
    if !crate::alloc::is_broker() || BUSY.with(|b| b.replace(true)) {
        return None;
    }
    let ns = tokio::time::Instant::now().saturating_duration_since(base).as_nanos() as i128;
    BUSY.with(|b| b.set(false));
    Some(ns)
}
/// Stands in for the C library's function of this name.
/// # Safety
/// As `clock_gettime(2)`.
pub unsafe fn gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if matches!(clock, libc::CLOCK_MONOTONIC | libc::CLOCK_REALTIME | libc::CLOCK_BOOTTIME) {
        if let Some(ns) = virtual_ns() {
            // Some time in 2026, and an uptime of a day.
            let all = ns + if clock == libc::CLOCK_REALTIME { 1_780_000_000 } else { 86_400 } * 1_000_000_000;
            (*ts).tv_sec = (all / 1_000_000_000) as libc::time_t;
            (*ts).tv_nsec = (all % 1_000_000_000) as libc::c_long;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}
