//! Component types of every shape, each value traceable to its creation, and the destructor registry.
use crate::report::viol;
use std::cell::UnsafeCell;
use std::mem::ManuallyDrop;

pub const NT: usize = 12;
pub const NAMES: [&str; NT] = ["P4", "Hp", "Tr24", "Big", "Al32", "Zd", "Zp", "U8", "U24", "Za", "Tr12", "U16"];
/// Kinds whose values carry an instance number and a destructor
pub const TRACKED: [bool; NT] = [false, true, true, true, true, false, false, false, false, false, true, false];
/// Zero-sized kinds with a destructor: counted
pub const ZDROP: [bool; NT] = [false, false, false, false, false, true, false, false, false, true, false, false];

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Val {
    pub inst: u32,
    pub pay: u64,
}

// ---- registry ---------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Live,
    Dropped,
}
pub struct Inst {
    pub kind: u8,
    pub st: St,
    pub may_leak: bool,
}
#[derive(Default)]
pub struct Reg {
    pub active: bool,
    pub insts: Vec<Inst>,
    pub zcreated: [i64; NT],
    pub zdropped: [i64; NT],
    /// how many zero-sized values may have been leaked (refused or interrupted operations)
    pub zslack: [i64; NT],
    /// instances dropped since the log was last taken, in order
    pub log: Vec<u32>,
    pub zlog: [i64; NT],
    /// destructor calls until one panics; 0: never
    pub panic_in: u32,
    pub panicked: bool,
    pub panicked_inst: u32,
    pub panicked_zkind: usize,
    pub calls: u64,
}
struct Cellx(UnsafeCell<Option<Reg>>);
unsafe impl Sync for Cellx {}
static REG: Cellx = Cellx(UnsafeCell::new(None));

/// Only the thread holding the simulator's baton touches the registry.
#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Reg {
    unsafe { (*REG.0.get()).get_or_insert_with(Reg::default) }
}

pub struct Injected;
/// Ends a simulated thread after a violation
pub struct SimAbort;
pub struct OomInjected;

const CALL_CAP: u64 = 2_000_000;

fn on_drop(kind: usize, inst: u32, ok: bool) {
    let was = crate::alloc::leave_sut();
    let r = reg();
    let mut panic_now = false;
    if r.active {
        r.calls += 1;
        if r.calls > CALL_CAP {
            viol("hang", "destructors are being run without end".into());
            crate::report::die();
        }
        if ZDROP[kind] {
            r.zdropped[kind] += 1;
            r.zlog[kind] += 1;
            if r.zdropped[kind] > r.zcreated[kind] {
                viol("drop-unknown", format!("destructor of zero-sized {} ran more often than values were created", NAMES[kind]));
                if r.calls > 100_000 {
                    crate::report::die();
                }
            }
        } else if !ok || inst as usize >= r.insts.len() || r.insts[inst as usize].kind as usize != kind {
            viol("drop-unknown", format!("destructor of {} ran on memory that holds no such value (inst {inst})", NAMES[kind]));
        } else if r.insts[inst as usize].st == St::Dropped {
            viol("drop-twice", format!("value #{inst} ({}) was dropped twice", NAMES[kind]));
        } else {
            r.insts[inst as usize].st = St::Dropped;
            r.log.push(inst);
        }
        if r.panic_in > 0 {
            r.panic_in -= 1;
            if r.panic_in == 0 && !std::thread::panicking() {
                r.panicked = true;
                r.panicked_inst = if ZDROP[kind] { u32::MAX } else { inst };
                r.panicked_zkind = if ZDROP[kind] { kind } else { NT };
                panic_now = true;
            }
        }
    }
    if panic_now {
        crate::report::count("fault.destructor_panic", 1);
        std::panic::panic_any(Injected);
    }
    crate::alloc::enter_sut(was);
}

fn new_inst(kind: usize) -> u32 {
    let r = reg();
    r.insts.push(Inst { kind: kind as u8, st: St::Live, may_leak: false });
    (r.insts.len() - 1) as u32
}

fn canary(inst: u32) -> u32 {
    crate::rng::mix(inst as u64 ^ 0xC0FFEE) as u32
}

fn live_inst(kind: usize, inst: u32) -> bool {
    let r = reg();
    matches!(r.insts.get(inst as usize), Some(i) if i.kind as usize == kind && i.st == St::Live)
}

pub const TORN: u64 = u64::MAX;

/// A component type the simulator knows how to make, read and write.
pub trait Comp: 'static + Sized {
    const K: usize;
    fn make(pay: u64) -> Self;
    /// None: the memory does not hold a live value of this type
    fn read(p: *const Self) -> Option<Val>;
    fn write_half(p: *mut Self, pay: u64);
    fn write(p: *mut Self, pay: u64);
}

macro_rules! plain {
    ($name:ident, $k:literal, $inner:ty, $make:expr, $read:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name(pub $inner);
        impl Comp for $name {
            const K: usize = $k;
            fn make(pay: u64) -> Self {
                let f: fn(u64) -> $inner = $make;
                $name(f(pay))
            }
            fn read(p: *const Self) -> Option<Val> {
                let f: fn($inner) -> u64 = $read;
                Some(Val { inst: 0, pay: f(unsafe { (*p).0 }) })
            }
            fn write_half(_: *mut Self, _: u64) {}
            fn write(p: *mut Self, pay: u64) {
                let f: fn(u64) -> $inner = $make;
                unsafe { (*p).0 = f(pay) }
            }
        }
    };
}
/// Four types that have one path: only their `TypeId`s tell them apart
pub struct Slot<const K: usize>;
pub trait Named {
    type T: Comp + Copy;
}
pub type P4 = <Slot<0> as Named>::T;
pub type U8 = <Slot<7> as Named>::T;
pub type U24 = <Slot<8> as Named>::T;
pub type U16 = <Slot<11> as Named>::T;
macro_rules! twin {
    ($k:literal, $inner:ty, $make:expr, $read:expr) => {{
        plain!(Twin, $k, $inner, $make, $read);
        impl Named for Slot<$k> {
            type T = Twin;
        }
    }};
}
#[allow(dead_code, non_local_definitions)]
fn twins() {
    twin!(0, u32, |p| p as u32, |v| v as u64);
    twin!(7, u8, |p| p as u8, |v| v as u64);
    twin!(8, [u8; 3], |p| [p as u8, (p >> 8) as u8, (p >> 16) as u8], |v| v[0] as u64 | (v[1] as u64) << 8 | (v[2] as u64) << 16);
    twin!(11, u16, |p| p as u16, |v| v as u64);
}
plain!(Zp, 6, (), |_| (), |_| 0);

pub fn mask(kind: usize, pay: u64) -> u64 {
    match kind {
        0 | 10 => pay & 0xFFFF_FFFF,
        7 => pay & 0xFF,
        8 => pay & 0xFF_FFFF,
        11 => pay & 0xFFFF,
        5 | 6 | 9 => 0,
        _ => pay & 0xFFFF_FFFF_FFFF,
    }
}

macro_rules! zdrop {
    ($name:ident, $k:literal, $inner:ty, $v:expr) => {
        pub struct $name($inner);
        impl Drop for $name {
            fn drop(&mut self) {
                on_drop($k, 0, true)
            }
        }
        impl Comp for $name {
            const K: usize = $k;
            fn make(_: u64) -> Self {
                reg().zcreated[$k] += 1;
                $name($v)
            }
            fn read(_: *const Self) -> Option<Val> {
                Some(Val { inst: 0, pay: 0 })
            }
            fn write_half(_: *mut Self, _: u64) {}
            fn write(_: *mut Self, _: u64) {}
        }
    };
}
zdrop!(Zd, 5, (), ());
zdrop!(Za, 9, [u128; 0], []);

macro_rules! tracked {
    ($(#[$m:meta])* $name:ident, $k:literal, { $($f:ident : $t:ty),* }, |$inst:ident, $pay:ident| $mk:expr, |$s:ident| $ok:expr) => {
        $(#[$m])*
        pub struct $name { inst: u32, canary: u32, a: u64, b: u64, $($f: $t),* }
        impl $name {
            fn ok(p: *const Self) -> bool {
                unsafe {
                    let inst = (*p).inst;
                    (*p).canary == canary(inst) && live_inst($k, inst) && { let $s = &*p; $ok }
                }
            }
        }
        impl Drop for $name {
            fn drop(&mut self) {
                on_drop($k, self.inst, self.canary == canary(self.inst));
            }
        }
        impl Comp for $name {
            const K: usize = $k;
            fn make($pay: u64) -> Self {
                let $inst = new_inst($k);
                let pay = mask($k, $pay);
                let f = $mk;
                f(pay)
            }
            fn read(p: *const Self) -> Option<Val> {
                if !Self::ok(p) { return None; }
                let v = unsafe { &*p };
                Some(Val { inst: v.inst, pay: if v.b == !v.a { v.a } else { TORN } })
            }
            fn write_half(p: *mut Self, pay: u64) { unsafe { (*p).a = mask($k, pay) } }
            fn write(p: *mut Self, pay: u64) { unsafe { (*p).a = mask($k, pay); (*p).b = !mask($k, pay) } }
        }
    };
}
tracked!(Tr24, 2, {}, |inst, pay| move |p: u64| Tr24 { inst, canary: canary(inst), a: p, b: !p }, |_s| true);
tracked!(#[repr(align(32))] Al32, 4, {}, |inst, pay| move |p: u64| Al32 { inst, canary: canary(inst), a: p, b: !p }, |_s| true);
tracked!(Big, 3, { pad: [u32; 44] }, |inst, pay| move |p: u64| Big { inst, canary: canary(inst), a: p, b: !p, pad: [inst ^ 0x5A5A; 44] },
    |s| s.pad.iter().all(|&x| x == s.inst ^ 0x5A5A));

/// Owns heap memory; frees it by hand, so that a second drop is reported and not executed.
pub struct Hp {
    inst: u32,
    canary: u32,
    heap: ManuallyDrop<Box<[u64; 2]>>,
}
impl Drop for Hp {
    fn drop(&mut self) {
        let ok = self.canary == canary(self.inst);
        if ok && live_inst(1, self.inst) {
            unsafe { ManuallyDrop::drop(&mut self.heap) };
        }
        on_drop(1, self.inst, ok);
    }
}
impl Comp for Hp {
    const K: usize = 1;
    fn make(pay: u64) -> Self {
        let inst = new_inst(1);
        let pay = mask(1, pay);
        Hp { inst, canary: canary(inst), heap: ManuallyDrop::new(Box::new([pay, !pay])) }
    }
    fn read(p: *const Self) -> Option<Val> {
        unsafe {
            let inst = (*p).inst;
            if (*p).canary != canary(inst) || !live_inst(1, inst) {
                return None;
            }
            let h = &(*p).heap;
            Some(Val { inst, pay: if h[1] == !h[0] { h[0] } else { TORN } })
        }
    }
    fn write_half(p: *mut Self, pay: u64) {
        unsafe { (&mut (*p).heap)[0] = mask(1, pay) }
    }
    fn write(p: *mut Self, pay: u64) {
        unsafe {
            (&mut (*p).heap)[0] = mask(1, pay);
            (&mut (*p).heap)[1] = !mask(1, pay);
        }
    }
}

/// 12 bytes, align 4
pub struct Tr12 {
    inst: u32,
    canary: u32,
    a: u32,
}
impl Drop for Tr12 {
    fn drop(&mut self) {
        on_drop(10, self.inst, self.canary == canary(self.inst));
    }
}
impl Comp for Tr12 {
    const K: usize = 10;
    fn make(pay: u64) -> Self {
        let inst = new_inst(10);
        Tr12 { inst, canary: canary(inst), a: pay as u32 }
    }
    fn read(p: *const Self) -> Option<Val> {
        unsafe {
            let inst = (*p).inst;
            if (*p).canary != canary(inst) || !live_inst(10, inst) {
                return None;
            }
            Some(Val { inst, pay: (*p).a as u64 })
        }
    }
    fn write_half(_: *mut Self, _: u64) {}
    fn write(p: *mut Self, pay: u64) {
        unsafe { (*p).a = pay as u32 }
    }
}

#[macro_export]
macro_rules! with_k {
    ($k:expr, $T:ident => $e:expr) => {
        match $k {
            0 => { type $T = $crate::values::P4; $e }
            1 => { type $T = $crate::values::Hp; $e }
            2 => { type $T = $crate::values::Tr24; $e }
            3 => { type $T = $crate::values::Big; $e }
            4 => { type $T = $crate::values::Al32; $e }
            5 => { type $T = $crate::values::Zd; $e }
            6 => { type $T = $crate::values::Zp; $e }
            7 => { type $T = $crate::values::U8; $e }
            8 => { type $T = $crate::values::U24; $e }
            9 => { type $T = $crate::values::Za; $e }
            10 => { type $T = $crate::values::Tr12; $e }
            11 => { type $T = $crate::values::U16; $e }
            k => panic!("harness: no component kind {k}"),
        }
    };
}

/// What a component id stores
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum CKind {
    T(u8),
    Raw(u32, u32),
    Tag,
}

pub const RAWS: [(usize, usize); 26] = [
    (1, 1), (2, 1), (3, 1), (4, 4), (5, 1), (8, 8), (12, 4), (16, 16), (24, 8), (40, 8), (64, 64), (128, 32), (0, 1), (0, 8),
    (300, 4), (1000, 8), (512, 512), (0, 64), (6, 2), (4096, 4096), (5000, 8), (2048, 1024),
    // these rarely: more than 16 bits can say
    (65_560, 8), (65_537, 1), (65_536, 16), (131_088, 4),
];
pub const HUGE: usize = 4;
/// A layout for a number: y % 256 says which
pub fn raw_of(y: u64) -> CKind {
    let n = RAWS.len() - HUGE;
    let i = match y as usize & 0xFF {
        y if y >= 256 - HUGE => n + (y - (256 - HUGE)),
        y => y % n,
    };
    CKind::Raw(RAWS[i].0 as u32, RAWS[i].1 as u32)
}
/// The bytes of a cell that are looked at: all of them, or in a huge one the ends and some between
fn watched(size: usize) -> impl Iterator<Item = usize> {
    let huge = size > 8192;
    let ends = if huge { 64 } else { size };
    (0..ends).chain((ends..size - if huge { 64 } else { 0 }).step_by(1021)).chain(if huge { size - 64..size } else { 0..0 })
}

fn raw_byte(pay: u64, i: usize) -> u8 {
    if i < 6 { (pay >> (8 * i)) as u8 } else { crate::rng::mix(pay.wrapping_mul(31).wrapping_add(i as u64)) as u8 }
}
fn raw_mask(size: usize, pay: u64) -> u64 {
    if size >= 6 { pay & 0xFFFF_FFFF_FFFF } else { pay & ((1u64 << (8 * size)) - 1) }
}

impl CKind {
    pub fn size(self) -> usize {
        match self {
            CKind::T(k) => with_k!(k, T => std::mem::size_of::<T>()),
            CKind::Raw(s, _) => s as usize,
            CKind::Tag => 0,
        }
    }
    pub fn align(self) -> usize {
        match self {
            CKind::T(k) => with_k!(k, T => std::mem::align_of::<T>()),
            CKind::Raw(_, a) => a as usize,
            CKind::Tag => 1,
        }
    }
    pub fn mask(self, pay: u64) -> u64 {
        match self {
            CKind::T(k) => mask(k as usize, pay),
            CKind::Raw(s, _) => raw_mask(s as usize, pay),
            CKind::Tag => 0,
        }
    }
    pub fn tracked(self) -> bool {
        matches!(self, CKind::T(k) if TRACKED[k as usize])
    }
    pub fn zdrop(self) -> Option<usize> {
        match self {
            CKind::T(k) if ZDROP[k as usize] => Some(k as usize),
            _ => None,
        }
    }
    pub fn has_drop(self) -> bool {
        self.tracked() || self.zdrop().is_some()
    }
    /// Whether it cannot be made out of nothing
    pub fn needs_data(self) -> bool {
        self.size() > 0 || self.has_drop()
    }
    /// Reads the cell at `p`; reports misaligned or invalid contents.
    pub fn read(self, p: *const u8) -> Result<Val, String> {
        if p.is_null() || (p as usize) % self.align() != 0 {
            viol("mem-misalign", format!("a {:?} cell was handed out at an address not aligned to {}", self, self.align()));
            return Err("misaligned".into());
        }
        match self {
            CKind::T(k) => with_k!(k, T => T::read(p as *const T)).ok_or_else(|| format!("no live {} at the cell", NAMES[k as usize])),
            CKind::Raw(s, _) => {
                let s = s as usize;
                let mut pay = 0u64;
                for i in 0..s.min(6) {
                    pay |= (unsafe { *p.add(i) } as u64) << (8 * i);
                }
                for i in watched(s) {
                    if unsafe { *p.add(i) } != raw_byte(pay, i) {
                        return Err(format!("byte {i} of a {s}-byte cell is garbage"));
                    }
                }
                Ok(Val { inst: 0, pay })
            }
            CKind::Tag => Ok(Val { inst: 0, pay: 0 }),
        }
    }
    pub fn write_half(self, p: *mut u8, pay: u64) {
        match self {
            CKind::T(k) => with_k!(k, T => T::write_half(p as *mut T, pay)),
            CKind::Raw(s, _) => {
                let s = s as usize;
                let pay = raw_mask(s, pay);
                for i in 0..s / 2 {
                    unsafe { *p.add(i) = raw_byte(pay, i) }
                }
            }
            CKind::Tag => (),
        }
    }
    pub fn write(self, p: *mut u8, pay: u64) {
        match self {
            CKind::T(k) => with_k!(k, T => T::write(p as *mut T, pay)),
            CKind::Raw(s, _) => {
                let s = s as usize;
                let pay = raw_mask(s, pay);
                for i in watched(s) {
                    unsafe { *p.add(i) = raw_byte(pay, i) }
                }
            }
            CKind::Tag => (),
        }
    }
}

/// A value in aligned storage of its own, to be handed over by pointer.
pub struct Loose {
    pub kind: CKind,
    pub val: Val,
    pub ptr: *mut u8,
}
impl Loose {
    pub fn new(kind: CKind, pay: u64) -> Loose {
        let layout = std::alloc::Layout::from_size_align(kind.size().max(1), kind.align()).unwrap();
        let ptr = unsafe { std::alloc::alloc(layout) };
        match kind {
            CKind::T(k) => with_k!(k, T => unsafe { (ptr as *mut T).write(T::make(pay)) }),
            _ => kind.write(ptr, pay),
        }
        let val = kind.read(ptr).unwrap_or(Val { inst: 0, pay: 0 });
        Loose { kind, val, ptr }
    }
}
impl Drop for Loose {
    fn drop(&mut self) {
        let layout = std::alloc::Layout::from_size_align(self.kind.size().max(1), self.kind.align()).unwrap();
        unsafe { std::alloc::dealloc(self.ptr, layout) }
    }
}
