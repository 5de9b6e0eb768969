//! Called at every edge of the instrumented crates (see build.sh). Not instrumented itself.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
static ARMED: AtomicBool = AtomicBool::new(false);
static LEFT: AtomicU64 = AtomicU64::new(0);
static EDGES: AtomicU64 = AtomicU64::new(0);
static CALL: AtomicUsize = AtomicUsize::new(0);

/// Does this thread run code under test?
#[inline(never)]
pub fn in_sut() -> bool {
    IN_SUT.with(|c| c.get())
}
#[inline(never)]
pub fn set_sut(v: bool) -> bool {
    IN_SUT.with(|c| c.replace(v))
}
/// While busy, a thread's edges do not count.
#[inline(never)]
pub fn set_busy(v: bool) -> bool {
    BUSY.with(|c| c.replace(v))
}
#[inline(never)]
pub fn is_busy() -> bool {
    BUSY.with(|c| c.get())
}
pub struct Busy(bool);
impl Busy {
    #[inline(never)]
    #[allow(clippy::new_without_default)]
    pub fn new() -> Busy {
        Busy(set_busy(true))
    }
}
impl Drop for Busy {
    #[inline(never)]
    fn drop(&mut self) {
        set_busy(self.0);
    }
}

/// From now on `f` is called when code under test has passed so many edges.
#[inline(never)]
pub fn arm(f: fn(), after: u64) {
    CALL.store(f as usize, Relaxed);
    LEFT.store(after, Relaxed);
    EDGES.store(0, Relaxed);
    ARMED.store(true, Relaxed);
}
#[inline(never)]
pub fn again(after: u64) {
    LEFT.store(after, Relaxed);
}
/// Returns the number of edges passed since `arm`.
#[inline(never)]
pub fn disarm() -> u64 {
    ARMED.store(false, Relaxed);
    EDGES.load(Relaxed)
}

type Waiter = fn(usize, u32, bool) -> Option<bool>;
static WAIT: AtomicUsize = AtomicUsize::new(0);
pub fn on_futex_wait(f: Waiter) {
    WAIT.store(f as usize, Relaxed);
}
pub(crate) fn futex_wait(addr: usize, val: u32, timed: bool) -> Option<bool> {
    match WAIT.load(Relaxed) {
        0 => None,
        f => unsafe { std::mem::transmute::<usize, Waiter>(f)(addr, val, timed) },
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    if !ARMED.load(Relaxed) || !IN_SUT.with(|c| c.get()) || BUSY.with(|c| c.get()) {
        return;
    }
    // (one thread runs at a time)
    EDGES.store(EDGES.load(Relaxed) + 1, Relaxed);
    let n = LEFT.load(Relaxed);
    if n > 1 {
        LEFT.store(n - 1, Relaxed);
        return;
    }
    BUSY.with(|c| c.set(true));
    let f = CALL.load(Relaxed);
    if f != 0 {
        let f: fn() = unsafe { std::mem::transmute(f) };
        f();
    }
    BUSY.with(|c| c.set(false));
}
