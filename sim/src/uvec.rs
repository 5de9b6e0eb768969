//! UntypedVec against ordinary vectors: histories over several vectors of one element kind, with destructor
//! panics and failing allocations.
use crate::alloc;
use crate::exec::{call, Out, RunResult};
use crate::plan::*;
use crate::report::{count, has_viol, poll_alloc, viol};
use crate::rng::{mix, Rng};
use crate::values::*;
use ellbase::with_k;
use std::mem::MaybeUninit;
use untyped_vec::{TypeInfo, UntypedVec};

pub const NV: usize = 4;
pub const KINDS: usize = NT + RAWS.len();

pub fn kind_of(code: u32) -> CKind {
    let c = code as usize % KINDS;
    if c < NT {
        CKind::T(c as u8)
    } else {
        CKind::Raw(RAWS[c - NT].0 as u32, RAWS[c - NT].1 as u32)
    }
}

fn dropper<T>(p: *mut MaybeUninit<u8>) {
    unsafe { (p as *mut T).drop_in_place() }
}

fn info(kind: CKind) -> TypeInfo {
    let l = std::alloc::Layout::from_size_align(kind.size(), kind.align()).unwrap();
    let d = match kind {
        CKind::T(k) if kind.has_drop() => Some(with_k!(k, T => dropper::<T> as fn(*mut MaybeUninit<u8>))),
        _ => None,
    };
    TypeInfo::new(l, d)
}

struct U {
    kind: CKind,
    vs: Vec<Option<Box<UntypedVec>>>,
    m: Vec<Vec<Val>>,
    tr: Vec<u64>,
    n: u64,
    fast: bool,
}

pub fn run(plan: &Plan) -> RunResult {
    *reg() = Reg::default();
    alloc::begin_run(&plan.profile);
    reg().active = true;
    let kind = kind_of(plan.prereg);
    let mut u = U { kind, vs: vec![], m: vec![], tr: vec![], n: 0, fast: false };
    let mut res = RunResult::default();
    for _ in 0..NV {
        let ti = info(kind);
        match call(|| unsafe { UntypedVec::new_from_raw(ti) }) {
            Out::Ok(v) => u.vs.push(Some(Box::new(v))),
            _ => {
                viol("panic", "creating a vector unwound".into());
                u.vs.push(None);
            }
        }
        u.m.push(vec![]);
    }
    for it in &plan.items {
        if has_viol() {
            break;
        }
        if let Item::Op(op) = it {
            u.n += 1;
            u.op(op);
            if !has_viol() && (plan.obs <= 1 || u.n % plan.obs as u64 == 0) {
                for v in 0..NV {
                    u.look(v, false);
                }
            }
        }
        res.items_done += 1;
        if res.states.len() < 64 {
            res.states.push(u.m.iter().fold(plan.prereg as u64, |a, v| mix(a ^ v.len() as u64)));
        }
    }
    if !has_viol() {
        for v in 0..NV {
            u.look(v, false);
        }
    }
    u.finish();
    res.vectors = true;
    res.steps = u.n;
    res.transcript = u.tr;
    res
}

/// How a call ended, as far as the model is concerned
enum End<R> {
    Ok(R),
    /// it took effect, and a destructor's panic came out
    Dtor,
    Oom,
    Refused,
    Bad,
}

impl U {
    fn v(&mut self, i: usize) -> *mut UntypedVec {
        &mut **self.vs[i].as_mut().unwrap()
    }

    fn ended<R>(&mut self, what: &str, want_refusal: bool, out: Out<R>) -> End<R> {
        alloc::disarm_failure();
        let dp = std::mem::take(&mut reg().panicked);
        reg().panic_in = 0;
        if alloc::failure_fired() {
            count("fault.alloc_failure", 1);
            if !alloc::failure_reported() || !matches!(out, Out::Oom) {
                viol("oom-ignored", format!("{what}: went on after a failed allocation"));
                return End::Bad;
            }
            alloc::clear_failure();
            return End::Oom;
        }
        if dp {
            if !matches!(out, Out::Injected) {
                viol("dtor-panic", format!("{what}: a destructor's panic did not reach the caller"));
                return End::Bad;
            }
            return End::Dtor;
        }
        match (want_refusal, out) {
            (false, Out::Ok(r)) => End::Ok(r),
            (true, Out::Panic(_)) => {
                count("fault.refused_panic", 1);
                End::Refused
            }
            (true, Out::Ok(_)) => {
                viol("state", format!("{what}: an index out of bounds was accepted"));
                End::Bad
            }
            (_, Out::Panic(p)) => {
                viol("panic", format!("{what} panicked: {p}"));
                End::Bad
            }
            _ => {
                viol("panic", format!("{what} unwound without a cause"));
                End::Bad
            }
        }
    }

    fn drops(&mut self, what: &str, want: &[Val]) {
        let r = reg();
        let mut log = std::mem::take(&mut r.log);
        let z = std::mem::take(&mut r.zlog);
        if let Some(k) = self.kind.zdrop() {
            let d = z[k] - want.len() as i64;
            if d < 0 {
                viol("drop-missing", format!("{what}: {} zero-sized elements were not dropped", -d));
            } else if d > 0 {
                viol("drop-early", format!("{what}: {d} zero-sized elements too many were dropped"));
            }
        } else if self.kind.tracked() {
            let mut w: Vec<u32> = want.iter().map(|v| v.inst).collect();
            w.sort();
            log.sort();
            for i in &w {
                if log.binary_search(i).is_err() {
                    viol("drop-missing", format!("{what}: element #{i} was not dropped"));
                }
            }
            for i in &log {
                if w.binary_search(i).is_err() {
                    viol("drop-early", format!("{what}: element #{i} was dropped"));
                }
            }
        }
    }

    fn op(&mut self, op: &Op) {
        if op.n > 1 {
            let room = (64 << 20) / self.kind.size().max(1) as u64;
            for i in 0..op.n.min(1 << 17).min(room.max(16)) {
                if has_viol() {
                    return;
                }
                self.fast = i % 512 > 0 && i + 1 < op.n;
                self.op(&Op { n: 0, x: mix(op.x ^ i) >> 20, ..op.clone() });
            }
            self.fast = false;
            return;
        }
        let vi = match op.h {
            Ref::E(n) => n as usize % NV,
            _ => 0,
        };
        let oi = match op.c.first() {
            Some(Ref::E(n)) => *n as usize % NV,
            _ => (vi + 1) % NV,
        };
        if self.vs[vi].is_none() || self.vs[oi].is_none() {
            return;
        }
        let (v, o) = (self.v(vi), self.v(oi));
        let len = self.m[vi].len();
        // y: an index; small values count from the end, so that minimised plans stay meaningful
        let idx = op.y as usize;
        let kind = self.kind;
        alloc::clear_failure();
        reg().panicked = false;
        let arm = |len: usize| {
            if len > 0 || op.code == "push" || op.code == "grow" {
                reg().panic_in = op.dp;
                alloc::arm_failure(op.af);
            }
        };
        match op.code.as_str() {
            "push" => {
                let l = Loose::new(kind, op.x);
                arm(len);
                let r = call(|| unsafe { (*v).push_raw(l.ptr as *mut MaybeUninit<u8>) });
                match self.ended("push_raw", false, r) {
                    End::Ok(()) => self.m[vi].push(l.val),
                    End::Oom => {
                        // still ours
                        if let CKind::T(k) = kind {
                            with_k!(k, T => unsafe { (l.ptr as *mut T).drop_in_place() });
                            reg().log.clear();
                            reg().zlog = [0; NT];
                        }
                        self.resync(vi);
                    }
                    _ => (),
                }
                self.drops("push_raw", &[]);
            }
            "pop" => {
                arm(len);
                let r = call(|| unsafe { (*v).pop() });
                let e = self.ended("pop", false, r);
                let mut d = vec![];
                match e {
                    End::Ok(b) => {
                        if b != (len > 0) {
                            viol("state", format!("pop of a vector of {len} elements returned {b}"));
                        }
                        d.extend(self.m[vi].pop());
                    }
                    End::Dtor => d.extend(self.m[vi].pop()),
                    End::Oom => self.resync(vi),
                    _ => (),
                }
                self.drops("pop", &d);
            }
            "srm" => {
                let bad = idx >= len;
                if !bad {
                    arm(len);
                }
                let r = call(|| unsafe { (*v).swap_remove(idx) });
                let mut d = vec![];
                match self.ended("swap_remove", bad, r) {
                    End::Ok(()) | End::Dtor => d.push(self.m[vi].swap_remove(idx)),
                    End::Oom => self.resync(vi),
                    _ => (),
                }
                self.drops("swap_remove", &d);
            }
            "move" if vi != oi => {
                let bad = idx >= len;
                if !bad {
                    arm(len);
                }
                let r = call(|| unsafe { (*v).swap_move_element_to_other_vec(&mut *o, idx) });
                match self.ended("swap_move_element_to_other_vec", bad, r) {
                    End::Ok(()) => {
                        let x = self.m[vi].swap_remove(idx);
                        self.m[oi].push(x);
                    }
                    End::Oom => {
                        // it may have been moved or not, but is still in exactly one of them
                        self.resync(vi);
                        self.resync(oi);
                    }
                    _ => (),
                }
                self.drops("moving an element", &[]);
            }
            "write" => {
                let r = call(|| unsafe { (*v).get_mut_raw(idx) });
                match self.ended("get_mut_raw", false, r) {
                    End::Ok(None) if idx < len => viol("state", format!("get_mut_raw({idx}) of {len} elements gives nothing")),
                    End::Ok(Some(_)) if idx >= len => viol("state", format!("get_mut_raw({idx}) of {len} elements gives something")),
                    End::Ok(Some(p)) => {
                        let want = self.m[vi][idx];
                        match kind.read(p) {
                            Ok(x) if x == want => {
                                let pay = kind.mask(op.x);
                                kind.write(p, pay);
                                self.m[vi][idx].pay = pay;
                            }
                            other => viol("state", format!("element {idx} is {other:?} instead of {want:?}")),
                        }
                    }
                    _ => (),
                }
            }
            "slice" => self.look(vi, true),
            "grow" => {
                let bad = kind.size() == 0;
                if !bad {
                    arm(len);
                }
                let r = call(|| unsafe { (*v).realloc() });
                match self.ended("realloc", bad, r) {
                    End::Oom => self.resync(vi),
                    _ => (),
                }
                self.drops("realloc", &[]);
            }
            "drop" => {
                let b = Box::into_raw(self.vs[vi].take().unwrap());
                arm(len);
                let r = call(|| unsafe { std::ptr::drop_in_place(b) });
                unsafe { std::alloc::dealloc(b as *mut u8, std::alloc::Layout::new::<UntypedVec>()) };
                let _ = self.ended("dropping a vector", false, r);
                let d = std::mem::take(&mut self.m[vi]);
                self.drops("dropping a vector", &d);
                if has_viol() {
                    return;
                }
                let fresh = if op.y & 1 == 0 || vi == oi {
                    let ti = info(kind);
                    call(|| unsafe { UntypedVec::new_from_raw(ti) })
                } else {
                    call(|| unsafe { UntypedVec::new_from_untyped_vec(&mut *o) })
                };
                match fresh {
                    Out::Ok(f) => self.vs[vi] = Some(Box::new(f)),
                    _ => viol("panic", "creating a vector unwound".into()),
                }
            }
            _ => (),
        }
        reg().panic_in = 0;
        alloc::disarm_failure();
        if !has_viol() && !self.fast {
            self.look(vi, false);
            if op.code == "move" {
                self.look(oi, false);
            }
        }
    }

    fn contents(&mut self, i: usize) -> Option<Vec<Val>> {
        let v = self.v(i);
        let n = match call(|| unsafe { (*v).len() }) {
            Out::Ok(n) => n,
            _ => {
                viol("panic", "len unwound".into());
                return None;
            }
        };
        if n > 100_000 {
            viol("state", format!("a vector has {n} elements"));
            return None;
        }
        let mut out = vec![];
        for j in 0..n {
            match call(|| unsafe { (*v).get_raw(j) }) {
                Out::Ok(Some(p)) => match self.kind.read(p) {
                    Ok(x) => out.push(x),
                    Err(e) => {
                        viol("state", format!("element {j} of {n}: {e}"));
                        return None;
                    }
                },
                Out::Ok(None) => {
                    viol("state", format!("get_raw({j}) of {n} elements gives nothing"));
                    return None;
                }
                _ => {
                    viol("panic", "get_raw unwound".into());
                    return None;
                }
            }
        }
        Some(out)
    }

    /// After a failed allocation: same elements, in whatever order
    fn resync(&mut self, i: usize) {
        let Some(now) = self.contents(i) else { return };
        let (mut a, mut b) = (now.clone(), self.m[i].clone());
        a.sort();
        b.sort();
        if a != b {
            viol("state", format!("a failed allocation changed a vector's elements from {b:?} to {a:?}"));
        }
        self.m[i] = now;
    }

    fn look(&mut self, i: usize, slices: bool) {
        if has_viol() || self.vs[i].is_none() {
            return;
        }
        let want = self.m[i].clone();
        let Some(now) = self.contents(i) else { return };
        if now != want {
            viol("state", format!("a vector holds {now:?} instead of {want:?}"));
            return;
        }
        let v = self.v(i);
        let n = want.len();
        let size = self.kind.size();
        let raw = if size == 0 { n } else { n * size };
        let facts = call(|| unsafe { ((*v).raw_len(), (*v).is_empty(), (*v).get_raw(n).is_none(), (*v).get_mut_raw(n + 3).is_none(), (*v).get_type_info()) });
        match facts {
            Out::Ok((r, e, a, b, ti)) => {
                if r != raw || e != (n == 0) || !a || !b || ti.layout.size() != size || ti.layout.align() != self.kind.align() {
                    viol("state", format!("raw_len {r}, is_empty {e}, get past the end {:?} for {n} elements of {size} bytes", (!a, !b)));
                }
            }
            _ => viol("panic", "raw_len, is_empty or get_raw unwound".into()),
        }
        if n > 0 {
            self.tr.push(want.iter().fold(n as u64, |a, v| mix(a ^ v.pay)));
        }
        if slices || self.n % 3 == 0 {
            if let CKind::T(k) = self.kind {
                let r = call(|| unsafe {
                    with_k!(k, T => {
                        let s: &[T] = (*v).as_slice::<T>();
                        let a = (s.as_ptr() as *const u8, s.len());
                        let m: &mut [T] = (*v).as_slice_mut::<T>();
                        (a, (m.as_mut_ptr() as *const u8, m.len()))
                    })
                });
                match r {
                    Out::Ok((a, b)) => {
                        for (p, l) in [a, b] {
                            if p as usize % self.kind.align() != 0 || p.is_null() {
                                viol("mem-misalign", format!("a slice of {:?} begins at an unaligned address", self.kind));
                                return;
                            }
                            if l != n {
                                viol("state", format!("a slice has {l} elements, the vector {n}"));
                                return;
                            }
                            for (j, w) in want.iter().enumerate() {
                                match self.kind.read(unsafe { p.add(j * size) }) {
                                    Ok(x) if x == *w => (),
                                    other => {
                                        viol("state", format!("slice element {j} is {other:?} instead of {w:?}"));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                    Out::Panic(p) => viol("panic", format!("as_slice panicked: {p}")),
                    _ => viol("panic", "as_slice unwound".into()),
                }
            }
            let r = call(|| unsafe { ((*v).as_immut_ptr(), (*v).as_mut_ptr() as *const u8) });
            if let Out::Ok((a, b)) = r {
                for p in [a, b] {
                    if p.is_null() || p as usize % self.kind.align() != 0 {
                        viol("mem-misalign", format!("the pointer to the elements is not aligned for {:?}", self.kind));
                        return;
                    }
                    for (j, w) in want.iter().enumerate() {
                        if self.kind.read(unsafe { p.add(j * size) }) != Ok(*w) {
                            viol("state", format!("element {j} is not where as_immut_ptr says"));
                            return;
                        }
                    }
                }
            } else {
                viol("panic", "as_immut_ptr unwound".into());
            }
        }
        poll_alloc();
    }

    fn finish(&mut self) {
        if has_viol() {
            for v in self.vs.iter_mut() {
                std::mem::forget(v.take());
            }
            return;
        }
        for i in 0..NV {
            let Some(v) = self.vs[i].take() else { continue };
            let p = Box::into_raw(v);
            let r = call(|| unsafe { std::ptr::drop_in_place(p) });
            unsafe { std::alloc::dealloc(p as *mut u8, std::alloc::Layout::new::<UntypedVec>()) };
            self.ended("dropping a vector", false, r);
            let d = std::mem::take(&mut self.m[i]);
            self.drops("dropping a vector", &d);
        }
        let r = reg();
        for (i, x) in r.insts.iter().enumerate() {
            if x.st == St::Live {
                viol("drop-missing", format!("element #{i} was never dropped"));
                break;
            }
        }
    }
}

pub fn generate(seed: u64, profile: crate::alloc::Profile) -> Plan {
    let mut r = Rng::new(mix(seed ^ 0x13));
    let mut kind = r.below((KINDS - HUGE) as u64) as u32;
    if mix(r.clone().next()) % 200 == 0 {
        kind = (KINDS - 1 - r.below(HUGE as u64) as usize) as u32;
    }
    let huge = kind as usize >= KINDS - HUGE;
    let mut lens = [0usize; NV];
    let nv = r.range(1, NV as u64) as usize;
    const C: [&str; 8] = ["push", "pop", "srm", "move", "write", "slice", "grow", "drop"];
    let mut w = [30u32, 8, 12, 16, 8, 6, 2, 3];
    for x in w.iter_mut().skip(1) {
        if r.chance(1, 4) {
            *x = 0;
        } else {
            *x *= r.range(1, 4) as u32;
        }
    }
    let n = match r.below(10) {
        0 | 1 => r.range(2, 8),
        2..=6 => r.range(8, 40),
        7 | 8 => r.range(40, 120),
        _ => r.range(120, 400),
    };
    let n = if huge { n.min(60) } else { n };
    let (dp, af) = (r.below(3), r.below(3));
    let mut items = vec![];
    let mut grows = if huge { 4 } else { 0 };
    for i in 0..n {
        let v = r.below(nv as u64) as usize;
        let mut code = C[r.weighted(&w)];
        if code == "grow" {
            // every time doubles the capacity
            grows += 1;
            if grows > 6 {
                code = "push";
            }
        }
        let o = r.below(NV as u64) as usize;
        let len = lens[v];
        let mut y = if len > 0 && !r.chance(1, 20) {
            match r.below(4) {
                0 => len - 1,
                1 => 0,
                _ => r.below(len as u64) as usize,
            }
        } else {
            len + r.below(3) as usize
        } as u64;
        let mut op = Op { code: code.into(), h: Ref::E(v as u32), c: vec![], x: i + 1, y: 0, n: 0, dp: 0, af: 0 };
        match code {
            "push" => lens[v] += 1,
            "pop" => lens[v] = len.saturating_sub(1),
            "srm" if (y as usize) < len => lens[v] -= 1,
            "move" => {
                op.c = vec![Ref::E(o as u32)];
                if v != o && (y as usize) < len {
                    lens[v] -= 1;
                    lens[o] += 1;
                }
            }
            "drop" => {
                lens[v] = 0;
                y = r.below(2);
                op.c = vec![Ref::E(o as u32)];
            }
            _ => (),
        }
        if matches!(code, "srm" | "move" | "write" | "drop") {
            op.y = y;
        }
        if dp > 0 && matches!(code, "pop" | "srm" | "drop") && r.chance(1, 6) {
            op.dp = if code == "drop" { r.range(1, 1 + len.max(1) as u64) as u32 } else { 1 };
        }
        if af > 0 && matches!(code, "push" | "move" | "grow") && r.chance(1, 5) {
            op.af = 1;
        }
        items.push(Item::Op(op));
    }
    let mut obs = *r.pick(&[1, 1, 4, 16]);
    // long vectors
    let big = r.chance(1, 3000) && kind_of(kind).size() <= 1000;
    if big || r.chance(1, 60) {
        let k = if big { r.range(65_530, 66_000) } else { *r.clone().pick(&[140, 270, 1100]) + r.below(30) };
        let at = r.below(items.len() as u64 + 1) as usize;
        let v = r.below(nv as u64) as u32;
        obs = 64;
        let mut once = r.chance(1, 2) && kind_of(kind).size() <= 128;
        for i in items.iter_mut().skip(at) {
            if let Item::Op(o) = i {
                // what is large fails to grow
                if once && o.h == Ref::E(v) && matches!(o.code.as_str(), "push" | "write" | "slice") && r.chance(1, 2) {
                    once = false;
                    o.code = "grow".into();
                    o.y = 0;
                    o.af = r.below(2) as u32;
                    continue;
                }
                // indices into what is there now
                if o.h == Ref::E(v) && matches!(o.code.as_str(), "srm" | "move" | "write") && r.chance(3, 4) {
                    o.y = r.below(k);
                }
                if o.code == "grow" {
                    o.code = "push".into();
                }
            }
        }
        items.insert(at, Item::Op(Op { code: "push".into(), h: Ref::E(v), c: vec![], x: 777, y: 0, n: k, dp: 0, af: 0 }));
    }
    Plan { prop: "C13".into(), profile, prereg: kind, twin: 0, newaf: 0, enddp: 0, obs, serial: false, items }
}
