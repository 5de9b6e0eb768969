//! The simulated allocator. Every allocation made by the code under test is answered according to the
//! run's profile (moving or in-place growth, minimal alignment, junk contents, quarantine or instant
//! recycling, guard pages, failure of the k-th request) and checked when it comes back.
use crate::report::alloc_viol;
use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub fn leave_sut() -> bool {
    crate::hook::set_sut(false)
}
pub fn enter_sut(v: bool) {
    crate::hook::set_sut(v);
}

/// Run `f` as code under test.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            enter_sut(self.0);
        }
    }
    let _g = G(crate::hook::set_sut(true));
    f()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Profile {
    /// 0 zero, 1 ones, 2 0xA5, 3 random, 4 whatever was there
    pub junk: u32,
    /// growth: 0 always moves, 1 in place when possible, 2 either
    pub moving: u32,
    /// 0 exactly the requested alignment and not more, 1 at least 16
    pub align: u32,
    /// freed blocks: 0 quarantined, 1 recycled at once
    pub recycle: u32,
    /// 1: every block ends at an inaccessible page, freed blocks become inaccessible
    pub guard: u32,
    /// addresses: 0 ascending, 1 descending, 2 scattered
    pub layout: u32,
    pub seed: u64,
}
impl Profile {
    pub const PLAIN: Profile = Profile { junk: 2, moving: 0, align: 0, recycle: 0, guard: 0, layout: 0, seed: 1 };
}

static JUNK: AtomicU32 = AtomicU32::new(2);
static MOVING: AtomicU32 = AtomicU32::new(0);
static ALIGN: AtomicU32 = AtomicU32::new(0);
static RECYCLE: AtomicU32 = AtomicU32::new(0);
static GUARD: AtomicU32 = AtomicU32::new(0);
static LAYOUT: AtomicU32 = AtomicU32::new(0);
static RNG: AtomicU64 = AtomicU64::new(1);
static SERIAL: AtomicU32 = AtomicU32::new(0);

/// Countdown to the allocation that fails; < 0: none.
static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static FAILED: AtomicBool = AtomicBool::new(false);
static REPORTED: AtomicBool = AtomicBool::new(false);

static LIVE: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static N_ALLOC: AtomicU64 = AtomicU64::new(0);
static N_MOVED: AtomicU64 = AtomicU64::new(0);
static N_INPLACE: AtomicU64 = AtomicU64::new(0);
static N_ODD: AtomicU64 = AtomicU64::new(0);
static N_GUARD: AtomicU64 = AtomicU64::new(0);

const HDR: usize = 80;
const RZ: usize = 32;
const MAGIC: u64 = 0x5157_A110_CA7E_D001;
const DEAD: u64 = 0xDEAD_B10C_DEAD_B10C;
const F_SUT: u32 = 1;
const F_GUARD: u32 = 2;

#[derive(Clone, Copy)]
#[repr(C)]
struct Hdr {
    magic: u64,
    size: usize,
    align: usize,
    base: usize,
    base_size: usize,
    room: usize,
    flags: u32,
    serial: u32,
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
    fn madvise(a: *mut u8, l: usize, adv: i32) -> i32;
}

// ---- where blocks live ------------------------------------------------------------------------
// One fixed address range, given out in an order the profile decides and reset after every run: addresses
// and stale contents are a function of the plan.
const ARENA: usize = 0x6000_0000_0000;
const SUB: usize = 1 << 30;
const NSUB: usize = 4;
const GARENA: usize = 0x6400_0000_0000;
const GSIZE: usize = 1 << 32;
const GMAX: u64 = 12_000;
const NCLASS: usize = 31;
const BIG: usize = 24;

struct Arena {
    ready: bool,
    ok: bool,
    used: [usize; NSUB],
    free: [usize; NCLASS],
    gused: usize,
    gcount: u64,
}
static mut AR: Arena = Arena { ready: false, ok: false, used: [0; NSUB], free: [0; NCLASS], gused: 0, gcount: 0 };
static SPIN: AtomicBool = AtomicBool::new(false);

unsafe fn locked<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    while SPIN.swap(true, std::sync::atomic::Ordering::Acquire) {
        std::hint::spin_loop();
    }
    let a = &mut *std::ptr::addr_of_mut!(AR);
    if !a.ready {
        a.ready = true;
        // MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE
        let f = 0x2 | 0x20 | 0x4000 | 0x100000;
        let p = mmap(ARENA as *mut u8, SUB * NSUB, 3, f, -1, 0);
        let g = mmap(GARENA as *mut u8, GSIZE, 0, f, -1, 0);
        a.ok = p as usize == ARENA && g as usize == GARENA;
    }
    let r = f(a);
    SPIN.store(false, std::sync::atomic::Ordering::Release);
    r
}

fn class(n: usize) -> usize {
    (usize::BITS - (n.max(32) - 1).leading_zeros()) as usize
}

unsafe fn get_block(n: usize) -> *mut u8 {
    if n > 1 << 28 {
        return std::ptr::null_mut();
    }
    let c = class(n);
    locked(|a| {
        if !a.ok {
            return System.alloc(Layout::from_size_align_unchecked(n, 16));
        }
        if a.free[c] != 0 {
            let p = a.free[c];
            a.free[c] = *(p as *const usize);
            return p as *mut u8;
        }
        let sz = 1usize << c;
        let mode = LAYOUT.load(Relaxed);
        let mut sub = if mode == 2 { rnd() as usize % NSUB } else { 0 };
        for _ in 0..NSUB {
            if a.used[sub] + sz <= SUB {
                a.used[sub] += sz;
                return match mode {
                    1 => (ARENA + (sub + 1) * SUB - a.used[sub]) as *mut u8,
                    _ => (ARENA + sub * SUB + a.used[sub] - sz) as *mut u8,
                };
            }
            sub = (sub + 1) % NSUB;
        }
        std::ptr::null_mut()
    })
}

unsafe fn put_block(p: *mut u8, n: usize) {
    let c = class(n);
    locked(|a| {
        if !a.ok {
            System.dealloc(p, Layout::from_size_align_unchecked(n, 16));
            return;
        }
        if c >= BIG {
            madvise(p, 1 << c, 4);
        }
        *(p as *mut usize) = a.free[c];
        a.free[c] = p as usize;
    })
}

unsafe fn reset_arena() {
    let mode = LAYOUT.load(Relaxed);
    locked(|a| {
        if !a.ok {
            return;
        }
        for i in 0..NSUB {
            let n = a.used[i];
            if n == 0 {
                continue;
            }
            let at = if mode == 1 { ARENA + (i + 1) * SUB - n } else { ARENA + i * SUB };
            if n < 1 << 18 {
                (at as *mut u8).write_bytes(0, n);
            } else {
                let lo = at & !4095;
                let hi = (at + n + 4095) & !4095;
                madvise(lo as *mut u8, hi - lo, 4);
            }
            a.used[i] = 0;
        }
        a.free = [0; NCLASS];
        if a.gused > 0 {
            madvise(GARENA as *mut u8, a.gused, 4);
            mprotect(GARENA as *mut u8, a.gused, 0);
            a.gused = 0;
        }
        a.gcount = 0;
    })
}

pub struct SimAlloc;

fn rnd() -> u64 {
    let s = RNG.load(Relaxed).wrapping_add(0x9E37_79B9_7F4A_7C15);
    RNG.store(s, Relaxed);
    mix(s)
}

unsafe fn hdr(p: *mut u8) -> *mut Hdr {
    p.sub(HDR) as *mut Hdr
}

unsafe fn fill(p: *mut u8, n: usize) {
    match JUNK.load(Relaxed) {
        0 => p.write_bytes(0, n),
        1 => p.write_bytes(0xFF, n),
        2 => p.write_bytes(0xA5, n),
        3 => {
            let mut s = rnd();
            for i in 0..n {
                s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                *p.add(i) = (s >> 33) as u8;
            }
        }
        _ => (),
    }
}

// ---- quarantine -------------------------------------------------------------------------------
const QN: usize = 192;
static mut QUAR: [usize; QN] = [0; QN];
static QPOS: AtomicUsize = AtomicUsize::new(0);
const POISON: u8 = 0xDD;
const POISON_MAX: usize = 16384;

unsafe fn evict(p: usize) {
    if p == 0 {
        return;
    }
    let p = p as *mut u8;
    let h = hdr(p).read_unaligned();
    let n = h.size.min(POISON_MAX);
    for i in 0..n {
        if *p.add(i) != POISON {
            alloc_viol(5, h.size as u64, h.align as u64, i as u64);
            break;
        }
    }
    put_block(h.base as *mut u8, h.base_size);
}

unsafe fn quarantine(p: *mut u8) {
    let i = QPOS.load(Relaxed);
    QPOS.store((i + 1) % QN, Relaxed);
    let old = QUAR[i];
    QUAR[i] = p as usize;
    evict(old);
}

unsafe fn check_rz(p: *mut u8, h: &Hdr) {
    if h.flags & F_GUARD == 0 {
        for i in 0..RZ {
            if *p.add(h.size + i) != 0xFB {
                alloc_viol(3, h.size as u64, h.align as u64, i as u64);
                break;
            }
        }
    }
    for i in 0..(HDR - std::mem::size_of::<Hdr>()) {
        if *p.sub(1 + i) != 0xFC {
            alloc_viol(4, h.size as u64, h.align as u64, 0);
            break;
        }
    }
}

unsafe fn raw_alloc(size: usize, align: usize, sut: bool) -> *mut u8 {
    let guard = sut && GUARD.load(Relaxed) == 1;
    if guard {
        let need = HDR + align * 2 + size;
        let pages = (need + 4095) / 4096;
        let len = (pages + 1) * 4096;
        let base = locked(|a| {
            if !a.ok || a.gcount >= GMAX || a.gused + len > GSIZE {
                return 0;
            }
            a.gcount += 1;
            a.gused += len;
            GARENA + a.gused - len
        }) as *mut u8;
        if base.is_null() || mprotect(base, pages * 4096, 3) != 0 {
            return raw_plain(size, align, sut);
        }
        let end = base as usize + pages * 4096;
        let user = (end - size) & !(align - 1);
        let p = user as *mut u8;
        let h = Hdr { magic: MAGIC, size, align, base: base as usize, base_size: len, room: size, flags: F_SUT | F_GUARD, serial: 0 };
        (hdr(p)).write_unaligned(h);
        p.sub(HDR - std::mem::size_of::<Hdr>()).write_bytes(0xFC, HDR - std::mem::size_of::<Hdr>());
        fill(p, size);
        N_GUARD.fetch_add(1, Relaxed);
        return p;
    }
    raw_plain(size, align, sut)
}

unsafe fn raw_plain(size: usize, align: usize, sut: bool) -> *mut u8 {
    let room = if sut && MOVING.load(Relaxed) != 0 { size.saturating_mul(2) } else { size };
    let room = if room > (1 << 20) { size } else { room };
    let base_size = HDR + align * 2 + room + RZ;
    let base = if sut { get_block(base_size) } else { System.alloc(Layout::from_size_align_unchecked(base_size, 16)) };
    if base.is_null() {
        return base;
    }
    let mut user = (base as usize + HDR + align - 1) & !(align - 1);
    if sut && ALIGN.load(Relaxed) == 0 && user % (align * 2) == 0 {
        user += align;
        N_ODD.fetch_add(1, Relaxed);
    } else if ALIGN.load(Relaxed) == 1 && align < 16 {
        let u16 = (user + 15) & !15;
        if u16 + room + RZ <= base as usize + base_size {
            user = u16;
        }
    }
    let p = user as *mut u8;
    let serial = if sut { SERIAL.fetch_add(1, Relaxed) } else { 0 };
    (hdr(p)).write_unaligned(Hdr {
        magic: MAGIC, size, align, base: base as usize, base_size, room,
        flags: if sut { F_SUT } else { 0 }, serial,
    });
    if sut {
        p.sub(HDR - std::mem::size_of::<Hdr>()).write_bytes(0xFC, HDR - std::mem::size_of::<Hdr>());
        fill(p, size);
        p.add(size).write_bytes(0xFB, RZ);
    }
    p
}

fn should_fail(size: usize, align: usize) -> bool {
    if FAILED.load(Relaxed) && !REPORTED.load(Relaxed) {
        // The failed request was not reported before the next one
        alloc_viol(6, size as u64, align as u64, 0);
    }
    let n = FAIL_AT.load(Relaxed);
    // A failure reported while a panic already unwinds could only abort: that is clean, but not observable here
    if n < 0 || std::thread::panicking() {
        return false;
    }
    FAIL_AT.store(n - 1, Relaxed);
    if n == 0 {
        FAILED.store(true, Relaxed);
        return true;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _b = crate::hook::Busy::new();
        let sut = crate::hook::in_sut();
        if sut {
            if l.size() == 0 {
                alloc_viol(7, 0, l.align() as u64, 0);
            }
            if should_fail(l.size(), l.align()) {
                return std::ptr::null_mut();
            }
        }
        let p = raw_alloc(l.size(), l.align(), sut);
        if sut && !p.is_null() {
            LIVE.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            N_ALLOC.fetch_add(1, Relaxed);
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _b = crate::hook::Busy::new();
        let h = hdr(p).read_unaligned();
        if h.magic != MAGIC {
            alloc_viol(2, l.size() as u64, l.align() as u64, 0);
            return;
        }
        if h.size != l.size() || h.align != l.align() {
            alloc_viol(1, h.size as u64, l.size() as u64, h.align as u64);
        }
        if h.flags & F_SUT == 0 {
            (hdr(p) as *mut u64).write_unaligned(DEAD);
            System.dealloc(h.base as *mut u8, Layout::from_size_align_unchecked(h.base_size, 16));
            return;
        }
        if !RUNNING.load(Relaxed) {
            // of a run that is over: its memory is gone already
            return;
        }
        LIVE.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(h.size as i64, Relaxed);
        check_rz(p, &h);
        (hdr(p) as *mut u64).write_unaligned(DEAD);
        if h.flags & F_GUARD != 0 {
            mprotect(h.base as *mut u8, h.base_size - 4096, 0);
            return;
        }
        if RECYCLE.load(Relaxed) == 1 {
            put_block(h.base as *mut u8, h.base_size);
        } else {
            p.write_bytes(POISON, h.size.min(POISON_MAX));
            quarantine(p);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let _b = crate::hook::Busy::new();
        let sut = crate::hook::in_sut();
        let h = hdr(p).read_unaligned();
        if h.magic != MAGIC {
            alloc_viol(2, l.size() as u64, l.align() as u64, 0);
            return self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        }
        if sut && should_fail(new, l.align()) {
            return std::ptr::null_mut();
        }
        if h.size != l.size() || h.align != l.align() {
            alloc_viol(1, h.size as u64, l.size() as u64, h.align as u64);
        }
        if h.flags & F_SUT != 0 {
            check_rz(p, &h);
            let in_place = h.flags & F_GUARD == 0
                && new <= h.room
                && match MOVING.load(Relaxed) {
                    0 => false,
                    1 => true,
                    _ => rnd() & 1 == 0,
                };
            if in_place {
                let mut h2 = h;
                h2.size = new;
                hdr(p).write_unaligned(h2);
                if new > h.size {
                    fill(p.add(h.size), new - h.size);
                }
                p.add(new).write_bytes(0xFB, RZ);
                LIVE_BYTES.fetch_add(new as i64 - h.size as i64, Relaxed);
                N_INPLACE.fetch_add(1, Relaxed);
                return p;
            }
            N_MOVED.fetch_add(1, Relaxed);
        }
        let owner_sut = h.flags & F_SUT != 0;
        let q = raw_alloc(new, l.align(), owner_sut);
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, h.size.min(new));
            if owner_sut {
                LIVE.fetch_add(1, Relaxed);
                LIVE_BYTES.fetch_add(new as i64, Relaxed);
            }
            self.dealloc(p, Layout::from_size_align_unchecked(h.size, h.align));
        }
        q
    }
}

// ---- control ----------------------------------------------------------------------------------

static RUNNING: AtomicBool = AtomicBool::new(false);
pub fn begin_run(p: &Profile) {
    RUNNING.store(true, Relaxed);
    JUNK.store(p.junk, Relaxed);
    MOVING.store(p.moving, Relaxed);
    ALIGN.store(p.align, Relaxed);
    RECYCLE.store(p.recycle, Relaxed);
    GUARD.store(p.guard, Relaxed);
    LAYOUT.store(p.layout, Relaxed);
    RNG.store(p.seed, Relaxed);
    SERIAL.store(0, Relaxed);
    ENTROPY.store(mix(p.seed ^ 0xE27), Relaxed);
    FAIL_AT.store(-1, Relaxed);
    FAILED.store(false, Relaxed);
    REPORTED.store(false, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
}

/// Give back everything still held for checking; reports late writes to freed blocks.
pub fn end_run() {
    RUNNING.store(false, Relaxed);
    unsafe {
        for i in 0..QN {
            let p = QUAR[i];
            QUAR[i] = 0;
            evict(p);
        }
        QPOS.store(0, Relaxed);
        reset_arena();
    }
}

pub fn live() -> (i64, i64) {
    (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed))
}
pub fn arm_failure(n: u32) {
    FAIL_AT.store(if n == 0 { -1 } else { n as i64 - 1 }, Relaxed);
    FAILED.store(false, Relaxed);
    REPORTED.store(false, Relaxed);
}
pub fn disarm_failure() {
    FAIL_AT.store(-1, Relaxed);
}
pub fn failure_fired() -> bool {
    FAILED.load(Relaxed)
}
pub fn failure_reported() -> bool {
    REPORTED.load(Relaxed)
}
pub fn clear_failure() {
    FAILED.store(false, Relaxed);
    REPORTED.store(false, Relaxed);
}
/// Called by the allocation-error hook.
pub fn note_reported() -> bool {
    REPORTED.store(true, Relaxed);
    FAILED.load(Relaxed)
}
static ENTROPY: AtomicU64 = AtomicU64::new(0);
static N_ENTROPY: AtomicU64 = AtomicU64::new(0);

/// The random numbers the standard library asks the system for (to seed hash maps) come from the plan.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    N_ENTROPY.fetch_add(1, Relaxed);
    let mut s = ENTROPY.load(Relaxed);
    for i in 0..len {
        s = mix(s.wrapping_add(0x9E37_79B9_7F4A_7C15));
        *buf.add(i) = s as u8;
    }
    ENTROPY.store(s, Relaxed);
    len as isize
}

/// Waiting in the kernel from library code is simulated; every other system call is made.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    const FUTEX: i64 = 202;
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    if n == FUTEX && crate::hook::in_sut() && !crate::hook::is_busy() {
        // WAIT or WAIT_BITSET
        let cmd = b & 0x7F;
        if cmd == 0 || cmd == 9 {
            if let Some(timed) = crate::hook::futex_wait(a, c as u32, d != 0) {
                if timed {
                    *__errno_location() = 110;
                    return -1;
                }
                return 0;
            }
        }
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}
pub fn entropy_asked() -> u64 {
    N_ENTROPY.load(Relaxed)
}

/// Counters since the process began: allocations, moved, in-place, minimally aligned, guarded.
pub fn totals() -> [u64; 5] {
    [N_ALLOC.load(Relaxed), N_MOVED.load(Relaxed), N_INPLACE.load(Relaxed), N_ODD.load(Relaxed), N_GUARD.load(Relaxed)]
}
