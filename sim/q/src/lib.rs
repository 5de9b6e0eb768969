//! Live queries behind one interface, static and dynamic.
use ellbase::alloc::sut;
use ellbase::report::viol;
use ellbase::values::*;
use arche_tape::{DynQuery, EcsId, EcsIds, FetchType, StaticQuery, World};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    E,
    R(u8),
    M(u8),
}

#[derive(Clone, Copy)]
pub enum Cell {
    Id(EcsId),
    P(*mut u8),
}

pub trait Param {
    fn cell(self) -> Cell;
}
impl Param for EcsId {
    fn cell(self) -> Cell {
        Cell::Id(self)
    }
}
impl<T: Comp> Param for &T {
    fn cell(self) -> Cell {
        Cell::P(self as *const T as *mut u8)
    }
}
impl<T: Comp> Param for &mut T {
    fn cell(self) -> Cell {
        Cell::P(self as *mut T as *mut u8)
    }
}

pub trait LiveQuery {
    /// Calls `f` for every row until it returns false.
    fn rows(&mut self, f: &mut dyn FnMut(&[Cell]) -> bool);
    fn get(&mut self, id: EcsId) -> Option<Vec<Cell>>;
    /// Column runs: (pointers, lengths). Only dynamic queries have them.
    fn columns(&mut self, _f: &mut dyn FnMut(&[(*mut u8, usize)]) -> bool) -> bool {
        false
    }
    /// Iterate once more, in another way
    fn again(&mut self, how: u64) -> usize;
    fn is_static(&self) -> bool;
}

/// How many items `it` has, told by different means
fn tell<I: Iterator>(mut it: I, how: u64) -> usize {
    match how % 6 {
        0 => it.count(),
        1 => it.fold(0, |n, _| n + 1),
        2 => it.step_by(2).count(),
        3 => it.last().is_some() as usize,
        4 => it.nth(3).is_some() as usize,
        _ => {
            let n = it.by_ref().take(2).count();
            n + it.count()
        }
    }
}
/// What `tell` should say
pub fn told(n: usize, how: u64) -> usize {
    match how % 6 {
        2 => n.div_ceil(2),
        3 => (n > 0) as usize,
        4 => (n > 3) as usize,
        _ => n,
    }
}
fn hints(h: (usize, Option<usize>), n: usize, complete: bool) {
    if h.1.is_some_and(|u| u < n) || complete && h.0 > n {
        viol("query", format!("an iterator announced {h:?} rows and {} {n}", if complete { "had" } else { "has at least" }));
    }
}

fn late() {
    viol("query", "an exhausted iterator yielded another row".into());
}

macro_rules! sq {
    ($N:ident; $($v:ident : $P:ty),*) => {
        pub struct $N<'a>(StaticQuery<'a, ($($P,)*)>);
        impl<'a> $N<'a> {
            #[inline(never)]
            fn open(w: &'a World) -> Self {
                $N(sut(|| w.query::<($($P,)*)>()))
            }
        }
        impl<'a> LiveQuery for $N<'a> {
            fn rows(&mut self, f: &mut dyn FnMut(&[Cell]) -> bool) {
                let mut it = sut(|| self.0.iter());
                let h = sut(|| it.size_hint());
                let mut n = 0;
                while let Some(($($v,)*)) = sut(|| it.next()) {
                    n += 1;
                    if !f(&[$($v.cell()),*]) {
                        hints(h, n, false);
                        return;
                    }
                }
                hints(h, n, true);
                for _ in 0..3 {
                    if sut(|| it.next().is_some()) { late(); return; }
                }
            }
            fn get(&mut self, id: EcsId) -> Option<Vec<Cell>> {
                sut(|| self.0.get(id)).map(|($($v,)*)| vec![$($v.cell()),*])
            }
            fn again(&mut self, how: u64) -> usize {
                sut(|| tell(self.0.iter(), how))
            }
            fn is_static(&self) -> bool { true }
        }
    };
}
include!("queries_gen.rs");

pub struct DynQ<'a, const N: usize>(DynQuery<'a, N>, [bool; N]);

#[repr(C)]
#[derive(Clone, Copy)]
struct PL(*mut u8, usize);

impl<'a, const N: usize> LiveQuery for DynQ<'a, N> {
    fn rows(&mut self, f: &mut dyn FnMut(&[Cell]) -> bool) {
        let is_id = self.1;
        let mut it = sut(|| self.0.iter());
        let h = sut(|| it.size_hint());
        let mut n = 0;
        while let Some(row) = sut(|| it.next()) {
            n += 1;
            let mut out = [Cell::P(std::ptr::null_mut()); N];
            for i in 0..N {
                out[i] = if is_id[i] { Cell::Id(unsafe { *(row[i] as *const EcsId) }) } else { Cell::P(row[i]) };
            }
            if !f(&out) {
                hints(h, n, false);
                return;
            }
        }
        hints(h, n, true);
        for _ in 0..3 {
            if sut(|| it.next().is_some()) {
                late();
                return;
            }
        }
    }
    fn get(&mut self, _: EcsId) -> Option<Vec<Cell>> {
        None
    }
    fn columns(&mut self, f: &mut dyn FnMut(&[(*mut u8, usize)]) -> bool) -> bool {
        let mut it = sut(|| self.0.column_iter());
        while let Some(cols) = sut(|| it.next()) {
            let mut out = [(std::ptr::null_mut(), 0); N];
            for i in 0..N {
                let PL(p, l) = unsafe { std::mem::transmute_copy::<_, PL>(&cols[i]) };
                out[i] = (p, l);
            }
            if !f(&out) {
                return true;
            }
        }
        for _ in 0..3 {
            if sut(|| it.next().is_some()) {
                late();
                return true;
            }
        }
        true
    }
    fn again(&mut self, how: u64) -> usize {
        sut(|| tell(self.0.iter(), how))
    }
    fn is_static(&self) -> bool {
        false
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DAcc {
    E,
    R(EcsId),
    M(EcsId),
}
fn ft(a: DAcc) -> FetchType {
    match a {
        DAcc::E => FetchType::EcsId,
        DAcc::R(i) => FetchType::Immut(i),
        DAcc::M(i) => FetchType::Mut(i),
    }
}
fn dynq<'a, const N: usize>(a: &[DAcc], w: &'a World) -> Box<dyn LiveQuery + 'a> {
    let mut ids = [false; N];
    for i in 0..N {
        ids[i] = a[i] == DAcc::E;
    }
    let mut i = 0;
    let fetches = [(); N].map(|_| {
        i += 1;
        ft(a[i - 1])
    });
    Box::new(DynQ::<N>(sut(|| w.query_dynamic(fetches)), ids))
}
pub fn open_dyn<'a>(a: &[DAcc], w: &'a World) -> Box<dyn LiveQuery + 'a> {
    match a.len() {
        1 => dynq::<1>(a, w),
        2 => dynq::<2>(a, w),
        3 => dynq::<3>(a, w),
        4 => dynq::<4>(a, w),
        5 => dynq::<5>(a, w),
        6 => dynq::<6>(a, w),
        7 => dynq::<7>(a, w),
        8 => dynq::<8>(a, w),
        9 => dynq::<9>(a, w),
        10 => dynq::<10>(a, w),
        n => panic!("harness: no dynamic query of {n}"),
    }
}
