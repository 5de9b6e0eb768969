//! Systems: scripts of queries, run by one thread or by several under the scheduler.
use crate::alloc::{self, sut};
use crate::model::Model;
use crate::plan::{QOp, QSpec, Ref};
use crate::queries::*;
use crate::report::{count, has_viol, viol};
use crate::rng::mix;
use crate::sched::{self, yield_now, Strategy};
use crate::values::*;
use arche_tape::{EcsId, World};
use std::cell::UnsafeCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Phase {
    Opening,
    Held,
    Closing,
}
struct Entry {
    key: u64,
    tid: usize,
    accs: Vec<(u64, bool)>,
    complete: bool,
    phase: Phase,
}

struct Table(UnsafeCell<Vec<Entry>>);
unsafe impl Sync for Table {}
static LIVE: Table = Table(UnsafeCell::new(Vec::new()));
/// Only the thread holding the baton comes here.
#[allow(clippy::mut_from_ref)]
fn live() -> &'static mut Vec<Entry> {
    unsafe { &mut *LIVE.0.get() }
}

fn conflict(a: &[(u64, bool)], b: &[(u64, bool)]) -> Option<u64> {
    for (c, m) in a {
        for (d, n) in b {
            if c == d && (*m || *n) {
                return Some(*c);
            }
        }
    }
    None
}

/// A thread has to wait for a lock: somebody must be holding or claiming something that conflicts.
pub fn wait_check(me: usize) {
    let l = live();
    let Some(mine) = l.iter().rev().find(|e| e.tid == me && e.phase == Phase::Opening) else { return };
    if !l.iter().any(|e| e.tid != me && conflict(&e.accs, &mine.accs).is_some()) {
        viol("needless-wait", format!("thread {me} has to wait although no other thread's query conflicts with its own"));
    }
}

#[derive(Clone)]
enum RA {
    E,
    C { id: u64, mutable: bool, kind: CKind },
}

struct Resolved {
    accs: Vec<RA>,
    dacc: Vec<DAcc>,
    /// a component without an id: no row can match
    dead: bool,
}

pub struct Ctx {
    w: *const World,
    m: *mut Model,
    parallel: bool,
    /// what the scripts of each thread use
    uses: Vec<Vec<(u64, bool)>>,
    /// a thread that shares a component is granted it once more even if somebody waits to write
    again: bool,
}
unsafe impl Sync for Ctx {}
unsafe impl Send for Ctx {}

fn resolve(m: &Model, q: &QSpec) -> Option<Resolved> {
    let mut r = Resolved { accs: vec![], dacc: vec![], dead: false };
    match q {
        QSpec::S(i) => {
            for a in *QUERIES.get(*i as usize)? {
                match *a {
                    Acc::E => r.accs.push(RA::E),
                    Acc::R(k) | Acc::M(k) => match m.types[k as usize] {
                        Some(id) => r.accs.push(RA::C { id: id.as_u64(), mutable: matches!(a, Acc::M(_)), kind: CKind::T(k) }),
                        None => r.dead = true,
                    },
                }
            }
        }
        QSpec::D(v) => {
            if v.is_empty() || v.len() > 10 {
                return None;
            }
            for (c, f) in v {
                if *c == 'E' {
                    r.accs.push(RA::E);
                    r.dacc.push(DAcc::E);
                    continue;
                }
                let id = m.resolve(*f)?;
                match m.kind(id) {
                    Some(kind) => r.accs.push(RA::C { id: id.as_u64(), mutable: *c == 'M', kind }),
                    None => r.dead = true,
                }
                r.dacc.push(if *c == 'M' { DAcc::M(id) } else { DAcc::R(id) });
            }
        }
    }
    Some(r)
}

fn uses(r: &Resolved) -> Vec<(u64, bool)> {
    let mut v: Vec<(u64, bool)> = vec![];
    for a in &r.accs {
        if let RA::C { id, mutable, .. } = a {
            match v.iter_mut().find(|x| x.0 == *id) {
                Some(x) => x.1 |= mutable,
                None => v.push((*id, *mutable)),
            }
        }
    }
    v
}

fn self_conflict(r: &Resolved) -> bool {
    let mut seen: Vec<(u64, bool)> = vec![];
    for a in &r.accs {
        if let RA::C { id, mutable, .. } = a {
            if seen.iter().any(|(s, m)| s == id && (*m || *mutable)) {
                return true;
            }
            seen.push((*id, *mutable));
        }
    }
    false
}

struct Hold<'a> {
    q: Option<Box<dyn LiveQuery + 'a>>,
    key: u64,
}
impl Drop for Hold<'_> {
    fn drop(&mut self) {
        if let Some(e) = live().iter_mut().find(|e| e.key == self.key) {
            e.phase = Phase::Closing;
        }
        struct G(u64);
        impl Drop for G {
            fn drop(&mut self) {
                live().retain(|e| e.key != self.0);
            }
        }
        let _g = G(self.key);
        if let Some(q) = self.q.take() {
            sut(|| drop(q));
        }
    }
}

static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

struct Thread<'c> {
    cx: &'c Ctx,
    me: usize,
    out: Vec<u64>,
    /// inner queries that outlive the query around them
    kept: Vec<(Hold<'c>, QOp)>,
}

/// A system that panics may have something to tidy up: it makes its query again while it unwinds.
struct Cleanup<'t, 'c> {
    t: &'t mut Thread<'c>,
    op: &'t QOp,
}
impl Drop for Cleanup<'_, '_> {
    fn drop(&mut self) {
        if !std::thread::panicking() || has_viol() {
            return;
        }
        count("fault.query_while_unwinding", 1);
        self.t.kept.clear();
        let mut op = self.op.clone();
        op.panic = 0;
        op.stall = 0;
        let r = catch_unwind(AssertUnwindSafe(|| self.t.query(&op, &[], 0)));
        if let Err(p) = r {
            if !p.is::<SimAbort>() && !p.is::<OomInjected>() {
                viol("panic", format!("a query made while unwinding panicked: {} ({:?})", crate::exec::payload(&*p), op));
            }
        }
    }
}

impl Thread<'_> {
    #[allow(clippy::mut_from_ref)]
    fn m<'x>(&self) -> &'x mut Model {
        unsafe { &mut *self.cx.m }
    }

    fn script(&mut self, ops: &[QOp]) {
        let mut i = 0;
        while i < ops.len() {
            if has_viol() {
                return;
            }
            let mut j = i + 1;
            while j < ops.len() && ops[j].nest {
                j += 1;
            }
            self.system(&ops[i], &ops[i + 1..j], 0);
            self.give_up();
            i = j;
        }
    }

    /// Inner queries end after the one around them: until then they see what they saw
    fn give_up(&mut self) {
        while !self.kept.is_empty() {
            yield_now();
            let (mut hold, op) = self.kept.remove(0);
            let m = self.m();
            if let (Some(r), false) = (resolve(m, &op.q), has_viol()) {
                count("par.outlived", 1);
                let quiet = QOp { x: 0, stop: 0, panic: 0, ..op };
                self.walk(&quiet, &r, &mut hold, &[], 1);
            }
            drop(hold);
        }
    }

    fn system(&mut self, op: &QOp, inner: &[QOp], depth: usize) {
        let starve = op.af > 0 && !self.cx.parallel;
        if starve {
            alloc::clear_failure();
            alloc::arm_failure(op.af);
        }
        let cleans_up = depth == 0 && op.panic > 0 && mix(op.x ^ op.panic as u64) & 1 == 0;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if cleans_up {
                let c = Cleanup { t: self, op };
                c.t.query(op, inner, depth);
            } else {
                self.query(op, inner, depth);
            }
        }));
        if starve {
            alloc::disarm_failure();
            if alloc::failure_fired() && !alloc::failure_reported() {
                viol("oom-ignored", format!("a query: a failed allocation was not reported ({op:?})"));
            }
            alloc::clear_failure();
        }
        crate::report::poll_alloc();
        if let Err(p) = r {
            if p.is::<Injected>() {
                count("fault.system_panic", 1);
                self.out.push(0xBAD);
            } else if p.is::<SimAbort>() {
                resume_unwind(p);
            } else if p.is::<OomInjected>() {
                count("fault.alloc_failure_in_query", 1);
                self.out.push(0x00F);
            } else {
                viol("panic", format!("a query panicked: {} ({:?})", crate::exec::payload(&*p), op));
            }
        }
    }

    fn query(&mut self, op: &QOp, inner: &[QOp], depth: usize) {
        let m = self.m();
        let Some(r) = resolve(m, &op.q) else { return };
        let us = uses(&r);
        let conflicted = self_conflict(&r);
        if depth > 0 {
            // Holding one query while waiting for another is the caller's own deadlock
            if live().iter().any(|e| e.tid == self.me && conflict(&e.accs, &us).is_some()) || conflicted {
                return;
            }
            let mine = |c: u64| live().iter().any(|e| e.tid == self.me && e.phase == Phase::Held && e.accs.contains(&(c, false)));
            for x in &us {
                if self.cx.uses.iter().enumerate().any(|(t, u)| t != self.me && conflict(u, &[*x]).is_some()) {
                    // A shared lock taken twice may wait for a writer in between
                    if !self.cx.again || x.1 || !mine(x.0) {
                        return;
                    }
                    count("par.shared_again", 1);
                    sched::at_own_risk();
                }
            }
            count("par.nested", 1);
        }
        let complete = !r.dead && us.iter().all(|(c, _)| m.ents.get(c).is_some_and(|e| e.carried));
        yield_now();
        let key = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        live().push(Entry { key, tid: self.me, accs: us.clone(), complete, phase: Phase::Opening });
        let mut hold = Hold { q: None, key };
        let w: &World = unsafe { &*self.cx.w };
        let opened = catch_unwind(AssertUnwindSafe(|| match &op.q {
            QSpec::S(i) => open(*i as usize, w),
            QSpec::D(_) => open_dyn(&r.dacc, w),
        }));
        match opened {
            Ok(q) => hold.q = Some(q),
            Err(p) => {
                if p.is::<SimAbort>() || p.is::<OomInjected>() {
                    drop(hold);
                    resume_unwind(p);
                }
                if conflicted {
                    count("query.self_conflict_refused", 1);
                    self.out.push(0x5C);
                } else {
                    viol("panic", format!("opening a query panicked: {} ({:?})", crate::exec::payload(&*p), op));
                }
                return;
            }
        }
        let q = hold.q.as_mut().unwrap();
        if conflicted {
            let mut any = false;
            q.rows(&mut |_| {
                any = true;
                false
            });
            if any {
                viol("self-conflict", format!("a query in conflict with itself was granted and yields rows ({:?})", op));
            }
            return;
        }
        // Granted: nobody else may hold anything that conflicts
        if complete {
            for e in live().iter() {
                if e.tid != self.me && e.phase == Phase::Held && e.complete {
                    if let Some(c) = conflict(&e.accs, &us) {
                        viol(
                            "excl",
                            format!("thread {} was granted a query on component {c:#x} while thread {} holds a conflicting one", self.me, e.tid),
                        );
                    }
                }
            }
        }
        if let Some(e) = live().iter_mut().find(|e| e.key == key) {
            e.phase = Phase::Held;
        }
        count(if q.is_static() { "query.static" } else { "query.dynamic" }, 1);
        for _ in 0..op.stall {
            count("fault.stalled_holder_yields", 1);
            yield_now();
        }
        self.walk(op, &r, &mut hold, inner, depth);
        if depth > 0 && op.panic == 0 && mix(op.x ^ 0x91) & 1 == 0 && self.kept.len() < 4 && !has_viol() {
            self.kept.push((hold, op.clone()));
        }
    }

    fn inner(&mut self, inner: &[QOp], depth: usize) {
        let mut i = 0;
        while i < inner.len() {
            // the next one while this one is held, or after it
            let deeper = mix(inner[i].x ^ 0x77) & 1 == 0;
            self.system(&inner[i], if deeper { &inner[i + 1..] } else { &[] }, depth + 1);
            i = if deeper { inner.len() } else { i + 1 };
        }
    }

    /// What is done with a query, and at some point of it other queries
    fn walk(&mut self, op: &QOp, r: &Resolved, hold: &mut Hold<'_>, inner: &[QOp], depth: usize) {
        let m = self.m();
        let us = uses(r);
        let q = hold.q.as_mut().unwrap();
        // (before the first row, or after the n-th)
        let at = mix(op.x ^ 0x33) as usize % 4;
        let by_rows = op.mode != 3 && !(op.mode == 2 && q.is_static());
        if !by_rows || at == 0 {
            self.inner(inner, depth);
        }
        if op.mode == 3 {
            if op.panic > 0 {
                std::panic::panic_any(Injected);
            }
            return;
        }
        let comps: Vec<u64> = us.iter().map(|x| x.0).collect();
        let expected = if r.dead { vec![] } else { m.matching(&comps) };
        if op.mode == 2 && q.is_static() {
            self.lookups(op, r, &expected, &mut **q);
            if op.panic > 0 {
                std::panic::panic_any(Injected);
            }
            return;
        }
        let rest = if at == 0 { &[] } else { inner };
        let mut v = Visit { t: self, op, r, expected: &expected, seen: vec![false; expected.len()], n: 0, stopped: false, h: 1, index: None, inner: rest, at, depth };
        if op.mode == 1 && !q.is_static() {
            q.columns(&mut |cols| v.column_run(cols));
        } else {
            q.rows(&mut |row| v.row(row));
        }
        let (n, stopped, h, rest, seen) = (v.n, v.stopped, v.h, v.inner, v.seen);
        self.inner(rest, depth);
        if !stopped && n != expected.len() {
            let missing: Vec<String> = seen.iter().zip(&expected).filter(|(s, _)| !**s).map(|(_, e)| format!("{e:#x}")).collect();
            viol("query", format!("a query yielded {n} of {} matching entities; missing {missing:?} ({:?})", expected.len(), op));
        }
        if stopped {
            count("fault.iterator_abandoned", 1);
        }
        let how = mix(h ^ n as u64) >> 8;
        if how % 3 == 0 && !has_viol() {
            let (got, want) = (q.again(how / 3), told(expected.len(), how / 3));
            if got != want {
                viol("query", format!("iterating again (way {}) tells {got} instead of {want} with {} matching entities ({:?})", how / 3 % 6, expected.len(), op));
            }
        }
        self.out.push(mix(h ^ n as u64));
        if op.panic > 0 {
            std::panic::panic_any(Injected);
        }
    }

    fn lookups(&mut self, op: &QOp, r: &Resolved, expected: &[u64], q: &mut dyn LiveQuery) {
        let m = self.m();
        let mut ids: Vec<EcsId> = op.targets.iter().filter_map(|t| m.resolve(*t)).collect();
        if ids.is_empty() {
            ids = expected.iter().take(3).map(|e| m.ents[e].id).collect();
        }
        let mut h = 3;
        for id in ids {
            yield_now();
            let got = q.get(id);
            let want = expected.contains(&id.as_u64());
            if got.is_some() != want {
                viol(
                    "query",
                    format!("point lookup of {:#x} {} although the entity {} ({:?})", id.as_u64(), if want { "failed" } else { "succeeded" }, if want { "matches" } else { "does not match or is dead" }, op),
                );
                return;
            }
            if let Some(cells) = got {
                h = mix(h ^ self.cells(op, r, id.as_u64(), &cells));
                if op.x != 0 {
                    self.write(op, r, id.as_u64(), &cells, 0);
                }
            }
        }
        self.out.push(h);
    }

    /// Compare the cells of one row with the model.
    fn cells(&self, op: &QOp, r: &Resolved, e: u64, cells: &[Cell]) -> u64 {
        let m = self.m();
        let mut h = e;
        for (a, c) in r.accs.iter().zip(cells) {
            match (a, c) {
                (RA::E, Cell::Id(id)) => {
                    if id.as_u64() != e {
                        viol("query", format!("a row of {e:#x} carries the id {:#x} ({:?})", id.as_u64(), op));
                    }
                }
                (RA::C { id, kind, .. }, Cell::P(p)) => {
                    let want = m.ents.get(&e).and_then(|x| x.comps.get(id)).copied();
                    match kind.read(*p) {
                        Ok(v) => {
                            h = mix(h ^ v.pay);
                            if Some(v) != want {
                                viol(
                                    if self.cx.parallel { "stale" } else { "query" },
                                    format!("component {id:#x} of {e:#x} reads {v:?} instead of {want:?} ({:?})", op),
                                );
                            }
                        }
                        Err(x) => viol("query", format!("component {id:#x} of {e:#x}: {x} ({:?})", op)),
                    }
                }
                _ => viol("query", "a row of the wrong shape".into()),
            }
        }
        h
    }

    fn write(&mut self, op: &QOp, r: &Resolved, e: u64, cells: &[Cell], n: usize) {
        for (a, c) in r.accs.iter().zip(cells) {
            let (RA::C { id, mutable: true, kind }, Cell::P(p)) = (a, c) else { continue };
            let pay = kind.mask(mix(op.x.wrapping_add((n as u64) << 20) ^ e ^ id.rotate_left(17)));
            kind.write_half(*p, pay);
            if self.cx.parallel {
                yield_now();
            }
            let torn = matches!(kind, CKind::T(k) if TRACKED[*k as usize] && *k != 10);
            if torn && op.panic > 0 && op.panic as usize == n + 1 && op.x % 2 == 1 {
                if let Some(v) = self.m().ents.get_mut(&e).and_then(|x| x.comps.get_mut(id)) {
                    v.pay = TORN;
                }
                count("fault.panic_mid_write", 1);
                std::panic::panic_any(Injected);
            }
            kind.write(*p, pay);
            if let Some(v) = self.m().ents.get_mut(&e).and_then(|x| x.comps.get_mut(id)) {
                v.pay = pay;
            }
        }
    }
}

struct Visit<'t, 'c, 'x> {
    t: &'t mut Thread<'c>,
    op: &'x QOp,
    r: &'x Resolved,
    expected: &'x [u64],
    seen: Vec<bool>,
    n: usize,
    stopped: bool,
    h: u64,
    /// for large results: value of the first component -> rows not visited yet
    index: Option<std::collections::HashMap<(u32, u64), (usize, Vec<usize>)>>,
    /// queries to make after the `at`-th row
    inner: &'x [QOp],
    at: usize,
    depth: usize,
}
impl Visit<'_, '_, '_> {
    /// Which entity is this row about? By id if the row has one, else by its values.
    fn identify(&mut self, cells: &[Cell]) -> Result<(usize, bool), String> {
        for (a, c) in self.r.accs.iter().zip(cells) {
            if let (RA::E, Cell::Id(id)) = (a, c) {
                return match self.expected.binary_search(&id.as_u64()).ok() {
                    Some(i) if !self.seen[i] => Ok((i, true)),
                    Some(_) => Err(format!("entity {:#x} was visited twice", id.as_u64())),
                    None => Err(format!("entity {:#x} does not match (or is dead)", id.as_u64())),
                };
            }
        }
        let m = self.t.m();
        let mut vals: Vec<(u64, Val)> = vec![];
        for (a, c) in self.r.accs.iter().zip(cells) {
            if let (RA::C { id, kind, .. }, Cell::P(p)) = (a, c) {
                vals.push((*id, kind.read(*p)?));
            }
        }
        let fits = |e: &u64| vals.iter().all(|(c, v)| m.ents[e].comps.get(c) == Some(v));
        if self.expected.len() > 64 {
            // the same by an index over the first component
            let tell = |a: &RA| match a {
                RA::C { kind, .. } => (kind.tracked(), kind.size()),
                RA::E => (false, 0),
            };
            let at = (0..vals.len()).max_by_key(|i| self.r.accs.get(*i).map(tell));
            let Some((c0, v0)) = at.map(|i| vals[i]) else { return Err("a row of nothing".into()) };
            if self.index.is_none() {
                let mut x: std::collections::HashMap<(u32, u64), (usize, Vec<usize>)> = Default::default();
                for (i, e) in self.expected.iter().enumerate().rev() {
                    if let (false, Some(v)) = (self.seen[i], m.ents[e].comps.get(&c0)) {
                        let b = x.entry((v.inst, v.pay)).or_default();
                        b.0 += 1;
                        b.1.push(i);
                    }
                }
                self.index = Some(x);
            }
            let mut none = (0, vec![]);
            let (total, cand) = self.index.as_mut().unwrap().get_mut(&(v0.inst, v0.pay)).unwrap_or(&mut none);
            // (rows before may have been told apart by other means)
            let hit = cand.iter().enumerate().rev().find(|(_, i)| !self.seen[**i] && fits(&self.expected[**i])).map(|(j, i)| (j, *i));
            return match hit {
                Some((j, i)) => {
                    cand.remove(j);
                    Ok((i, *total == 1))
                }
                _ => Err(format!("a row with values {vals:?}, which no (unvisited) matching entity has")),
            };
        }
        let cand: Vec<usize> = (0..self.expected.len()).filter(|&i| fits(&self.expected[i])).collect();
        match cand.iter().find(|&&i| !self.seen[i]) {
            Some(&i) => Ok((i, cand.len() == 1)),
            None => Err(format!("a row with values {vals:?}, which no (unvisited) matching entity has")),
        }
    }

    fn row(&mut self, cells: &[Cell]) -> bool {
        if has_viol() {
            self.stopped = true;
            return false;
        }
        if cells.len() != self.r.accs.len() {
            viol("query", format!("a query with an unmatched component yielded a row ({:?})", self.op));
            self.stopped = true;
            return false;
        }
        let class = if self.t.cx.parallel { "stale" } else { "query" };
        let (i, sure) = match self.identify(cells) {
            Ok(x) => x,
            Err(e) => {
                viol(class, format!("{e} ({:?})", self.op));
                self.stopped = true;
                return false;
            }
        };
        self.seen[i] = true;
        let e = self.expected[i];
        self.h = mix(self.h ^ self.t.cells(self.op, self.r, e, cells));
        if self.t.cx.parallel && (self.n < 256 || self.n % 1024 == 0) {
            yield_now();
            self.t.cells(self.op, self.r, e, cells);
        }
        if self.op.x != 0 && sure {
            self.t.write(self.op, self.r, e, cells, self.n);
        }
        self.n += 1;
        if self.n == self.at && !self.inner.is_empty() {
            count("par.nested_in_a_row", 1);
            let inner = std::mem::take(&mut self.inner);
            self.t.inner(inner, self.depth);
            self.t.cells(self.op, self.r, e, cells);
        }
        if self.op.panic > 0 && self.n as u32 >= self.op.panic {
            std::panic::panic_any(Injected);
        }
        if self.op.stop > 0 && self.n as u32 >= self.op.stop {
            self.stopped = true;
            return false;
        }
        true
    }

    fn column_run(&mut self, cols: &[(*mut u8, usize)]) -> bool {
        let len = cols[0].1;
        if cols.iter().any(|c| c.1 != len) || len > self.expected.len() {
            viol("query", format!("a column run claims lengths {:?} with {} matching entities ({:?})", cols.iter().map(|c| c.1).collect::<Vec<_>>(), self.expected.len(), self.op));
            self.stopped = true;
            return false;
        }
        if self.r.accs.len() != cols.len() {
            if len > 0 {
                viol("query", format!("a query with an unmatched component yielded a column run ({:?})", self.op));
            }
            return len == 0;
        }
        for i in 0..len {
            let mut cells = vec![];
            for (a, (p, _)) in self.r.accs.iter().zip(cols) {
                cells.push(match a {
                    RA::E => {
                        if *p as usize % std::mem::align_of::<EcsId>() != 0 {
                            viol("mem-misalign", "a misaligned column of ids".into());
                            return false;
                        }
                        Cell::Id(unsafe { *(*p as *const EcsId).add(i) })
                    }
                    RA::C { kind, .. } => Cell::P(unsafe { p.add(i * kind.size()) }),
                });
            }
            if !self.row(&cells) {
                return false;
            }
        }
        true
    }
}

/// One thread holds `n` queries at once that all share what they use, and gives them up in some order; then
/// everything can be had exclusively.
pub fn hoard(w: &World, m: &Model, comps: &[EcsId], n: u64, order: u64, x: u64) -> Vec<u64> {
    let shared: Vec<usize> = (0..QUERIES.len()).filter(|i| QUERIES[*i].iter().all(|a| !matches!(a, Acc::M(_)))).collect();
    let mut out = vec![];
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut held: Vec<Option<(Box<dyn LiveQuery + '_>, QSpec)>> = vec![];
        let rows_of = |q: &QSpec| -> usize {
            let Some(r) = resolve(m, q) else { return 0 };
            let us: Vec<u64> = uses(&r).iter().map(|u| u.0).collect();
            if r.dead { 0 } else { m.matching(&us).len() }
        };
        let look = |q: &mut Box<dyn LiveQuery + '_>, s: &QSpec, what: &str| {
            let mut got = 0;
            q.rows(&mut |_| {
                got += 1;
                true
            });
            let want = rows_of(s);
            if got != want {
                viol("query", format!("{what} of {n} queries held at once yields {got} of {want} matching entities ({s:?})"));
            }
        };
        let pick = |i: u64| comps.get(mix(x ^ i) as usize % comps.len().max(1)).copied();
        let some: Vec<QSpec> = (0..5u64)
            .map(|i| match (pick(i), pick(i + 8)) {
                _ if i == 0 => QSpec::S(shared[mix(x) as usize % shared.len()] as u16),
                (Some(a), Some(b)) => {
                    let (a, b) = (('R', name(m, a)), ('R', name(m, b)));
                    let e = ('E', Ref::T(0));
                    QSpec::D(match i {
                        1 => vec![a],
                        2 => vec![e, a],
                        3 => vec![a, b],
                        _ => vec![b, e, a],
                    })
                }
                _ => QSpec::D(vec![('E', Ref::T(0))]),
            })
            .collect();
        for i in 0..n {
            if has_viol() {
                break;
            }
            let spec = &some[if i < 5 { i } else { mix(x ^ i << 8) % 5 } as usize];
            let Some(r) = resolve(m, spec) else { continue };
            let q = match spec {
                QSpec::S(k) => open(*k as usize, w),
                QSpec::D(_) => open_dyn(&r.dacc, w),
            };
            held.push(Some((q, spec.clone())));
            if i % 1009 == 3 || i + 1 == n {
                let (q, s) = held.last_mut().unwrap().as_mut().unwrap();
                look(q, s, "the last");
            }
        }
        let k = held.len();
        for i in [0, k / 2] {
            if let (Some(Some((q, s))), false) = (held.get_mut(i), has_viol()) {
                look(q, s, "one");
            }
        }
        for i in 0..k {
            let j = match order % 4 {
                0 => i,
                1 => k - 1 - i,
                _ if i % 2 == 0 => i / 2,
                _ => k - 1 - i / 2,
            };
            if let Some((q, _)) = held[j].take() {
                sut(|| drop(q));
            }
            if i == k / 2 && order % 4 == 3 && k > 2 {
                // one more in between
                let mut q = open_dyn(&[DAcc::E], w);
                look(&mut q, &QSpec::D(vec![('E', Ref::T(0))]), "a late one");
                sut(|| drop(q));
            }
        }
        drop(held);
        if !has_viol() {
            for c in comps {
                let mut q = open_dyn(&[DAcc::E, DAcc::M(*c)], w);
                look(&mut q, &QSpec::D(vec![('M', name(m, *c))]), "a mutable one after all");
                sut(|| drop(q));
            }
        }
        count("par.hoarded", k as u64);
        out.push(k as u64);
    }));
    if let Err(p) = r {
        if !p.is::<SimAbort>() {
            viol("panic", format!("holding {n} queries at once panicked: {}", crate::exec::payload(&*p)));
        }
    }
    crate::report::poll_alloc();
    out
}

/// A name plans can use for this id
fn name(m: &Model, id: EcsId) -> Ref {
    if let Some(k) = (0..NT).find(|k| m.types[*k] == Some(id)) {
        return Ref::T(k as u8);
    }
    m.handles.iter().find(|(_, v)| **v == id).map(|(k, _)| Ref::E(*k)).unwrap_or(Ref::T(0))
}

/// One system on the calling thread, outside any parallel phase.
pub fn run_single(w: &World, m: &mut Model, ops: &[QOp]) -> Vec<u64> {
    let cx = Ctx { w, m, parallel: false, uses: vec![], again: true };
    let mut t = Thread { cx: &cx, me: 0, out: vec![], kept: vec![] };
    let r = catch_unwind(AssertUnwindSafe(|| t.script(ops)));
    t.kept.clear();
    live().clear();
    if let Err(p) = r {
        if !p.is::<SimAbort>() {
            resume_unwind(p);
        }
    }
    t.out
}

pub fn run_parallel(w: &World, m: &mut Model, threads: &[Vec<QOp>], strategy: Strategy, wpref: bool, pre: u64) -> (Vec<u64>, sched::Outcome) {
    live().clear();
    let n = threads.len().min(sched::MAXT);
    let mut us = vec![];
    for t in threads {
        let mut u = vec![];
        for q in t {
            if let Some(r) = resolve(m, &q.q) {
                u.extend(uses(&r));
            }
        }
        us.push(u);
    }
    let cx = Ctx { w, m, parallel: true, uses: us, again: !wpref };
    let cx = &cx;
    *sched::WAIT_CHECK.lock().unwrap() = Some(wait_check);
    sched::begin(n, strategy, wpref, pre);
    let mut out = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let ops = &threads[i];
                std::thread::Builder::new()
                    .stack_size(512 << 10)
                    .spawn_scoped(s, move || {
                        sched::set_tid(i);
                        sched::finish_at_exit();
                        let mut t = Thread { cx, me: i, out: vec![], kept: vec![] };
                        sched::start_turn();
                        let r = catch_unwind(AssertUnwindSafe(|| t.script(ops)));
                        t.kept.clear();
                        let bad = match r {
                            Err(p) if !p.is::<SimAbort>() => Some(crate::exec::payload(&*p)),
                            _ => None,
                        };
                        if let Some(b) = bad {
                            viol("panic", format!("a system died: {b}"));
                        }
                        t.out
                    })
                    .expect("harness: cannot start a thread")
            })
            .collect();
        for h in hs {
            out.extend(h.join().unwrap());
        }
    });
    live().clear();
    let o = sched::end();
    (out, o)
}
