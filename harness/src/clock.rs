//! A virtual clock: this binary's own clock_gettime, in force on a thread while it is started.
use std::cell::Cell;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static NOW: Cell<u64> = const { Cell::new(0) };
    static TICK: Cell<u64> = const { Cell::new(0) };
    static BEFORE: Cell<bool> = const { Cell::new(false) };
    static READS: Cell<u64> = const { Cell::new(0) };
}
/// From now on this thread's wall clock says `at` (ns since 1970) and advances by `tick` with
/// each reading, just before it or just after.
pub fn start(at: u64, tick: u64, before: bool) {
    NOW.with(|c| c.set(at));
    TICK.with(|c| c.set(tick));
    BEFORE.with(|c| c.set(before));
    READS.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}
/// Back to the real clock. Returns the virtual time and how often it was read.
pub fn stop() -> (u64, u64) {
    ON.with(|c| c.set(false));
    (NOW.with(Cell::get), READS.with(Cell::get))
}
#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}
/// The processor time this thread has had, ns.
pub fn thread_cpu() -> u64 {
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut TimeSpec) -> i32;
    }
    let mut t = TimeSpec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}
fn read() -> u64 {
    READS.with(|c| c.set(c.get() + 1));
    let (t, d) = (NOW.with(Cell::get), TICK.with(Cell::get));
    NOW.with(|c| c.set(t + d));
    if BEFORE.with(Cell::get) {
        t + d
    } else {
        t
    }
}
#[cfg(all(not(miri), not(feature = "sanitized")))]
mod over {
    use super::*;
    extern "C" {
        fn syscall(n: i64, ...) -> i64;
    }
    /// # Safety
    /// as the C function
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut TimeSpec) -> i32 {
        // CLOCK_REALTIME, and its coarse kind
        if (id == 0 || id == 5) && ON.with(Cell::get) {
            let t = read();
            *ts = TimeSpec { sec: (t / 1_000_000_000) as i64, nsec: (t % 1_000_000_000) as i64 };
            return 0;
        }
        syscall(228, id, ts) as i32
    }
    /// # Safety
    /// as the C function
    #[no_mangle]
    pub unsafe extern "C" fn gettimeofday(tv: *mut TimeSpec, tz: *mut u8) -> i32 {
        if ON.with(Cell::get) {
            let t = read();
            *tv = TimeSpec { sec: (t / 1_000_000_000) as i64, nsec: (t % 1_000_000_000 / 1000) as i64 };
            return 0;
        }
        syscall(96, tv, tz) as i32
    }
    /// # Safety
    /// as the C function
    #[no_mangle]
    pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
        let t = if ON.with(Cell::get) { (read() / 1_000_000_000) as i64 } else { syscall(201, std::ptr::null_mut::<u8>()) };
        if !out.is_null() {
            *out = t;
        }
        t
    }
}
