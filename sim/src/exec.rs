//! Runs a plan against the real library and the model, and compares.
use crate::alloc::{self, sut};
use crate::model::{Drops, Model};
use crate::par;
use crate::plan::*;
use crate::queries::*;
use crate::report::{count, has_viol, poll_alloc, viol};
use crate::rng::mix;
use crate::sched::{self, Strategy};
use crate::values::*;
use ellbase::with_k;
use arche_tape::world::ComponentMeta;
use arche_tape::{EcsId, World};
use std::any::Any;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.chars().take(200).collect()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "(no message)".into()
    }
}

pub enum Out<R> {
    Ok(R),
    Injected,
    Oom,
    Abort,
    Panic(String),
}

/// Run code under test, catching whatever comes out.
pub fn call<R>(f: impl FnOnce() -> R) -> Out<R> {
    let r = catch_unwind(AssertUnwindSafe(|| sut(f)));
    poll_alloc();
    match r {
        Ok(r) => Out::Ok(r),
        Err(p) => {
            if p.is::<Injected>() {
                Out::Injected
            } else if p.is::<OomInjected>() {
                Out::Oom
            } else if p.is::<SimAbort>() {
                Out::Abort
            } else {
                Out::Panic(payload(&*p))
            }
        }
    }
}

/// Run harness code from within code under test.
fn harness<R>(f: impl FnOnce() -> R) -> R {
    let was = alloc::leave_sut();
    let r = f();
    alloc::enter_sut(was);
    r
}

#[derive(Default)]
pub struct RunResult {
    pub steps: u64,
    pub transcript: Vec<u64>,
    /// hashes of the schedules of parallel phases
    pub traces: Vec<u64>,
    pub states: Vec<u64>,
    /// for each parallel item: the explicit schedule it followed
    pub schedules: Vec<Vec<(u32, u8)>>,
    pub items_done: u64,
    /// an allocation failed
    pub oom: bool,
    /// memory may have been lost for a reason
    pub lossy: bool,
    /// a run of vectors, without a world
    pub vectors: bool,
}

struct Ex {
    w: Option<Box<World>>,
    m: Model,
    tr: Vec<u64>,
    /// an allocation failed: only the teardown is checked from here
    oom: bool,
    /// values or memory may have been lost to an injected panic
    lossy: bool,
    n: u64,
    steps: u64,
    live_before: usize,
    /// where the world was before it was moved
    left: Vec<usize>,
}
const LEFT: u8 = 0xDB;

/// Copy of an entity's expectation during an operation
#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    Done,
    Refused,
}

/// A value created for the operation under way
struct Made {
    kind: CKind,
    val: Val,
}
/// Capacities clients ask for: small ones, and a few large
fn capacity(y: u64) -> usize {
    match y {
        60 => 300,
        61 => 4096,
        62 => 1 << 16,
        63 => 70_000,
        y => y as usize,
    }
}

fn made(kind: CKind, val: Val) -> Made {
    Made { kind, val }
}

/// The same with the crate's macro
fn spawn_by_macro(w: &mut World, cs: &[(u8, u64)], current: &mut Option<Made>, handed: &mut Vec<Made>) -> EcsId {
    fn value<T: Comp>(pay: u64, current: &mut Option<Made>, handed: &mut Vec<Made>) -> T {
        harness(|| {
            handed.extend(current.take());
            let v = T::make(pay);
            *current = Some(made(CKind::T(T::K as u8), T::read(&v).unwrap()));
            v
        })
    }
    let id = match *cs {
        [] => arche_tape::spawn!(&mut w),
        [(a, p)] => with_k!(a, A => arche_tape::spawn!(&mut w, value::<A>(p, current, handed))),
        [(a, p), (b, q), ..] => with_k!(a, A => with_k!(b, B => {
            arche_tape::spawn!(&mut w, value::<A>(p, current, handed), value::<B>(q, current, handed),)
        })),
    };
    harness(|| {
        handed.extend(current.take());
        count("op.spawn_macro", 1);
    });
    id
}

pub fn run_plan(plan: &Plan) -> RunResult {
    if plan.prop == "C13" {
        return crate::uvec::run(plan);
    }
    *reg() = Reg::default();
    sched::reset();
    alloc::begin_run(&plan.profile);
    reg().active = true;
    let mut res = RunResult::default();
    let mut ex = Ex::new(plan, plan.prereg, plan.newaf);
    // the other world: the same clients, other type ids, always a little behind
    let lag = plan.twin.saturating_sub(1) as usize;
    let mut other = (plan.twin > 0 && !ex.oom && !has_viol()).then(|| Ex::new(plan, plan.prereg.rotate_left(5) ^ 0xA51, 0));
    if other.is_some() {
        count("run.two_worlds", 1);
    }
    for i in 0..plan.items.len() + if other.is_some() { lag } else { 0 } {
        if let Some(it) = plan.items.get(i) {
            ex.item(it, plan, Some(&mut res));
        }
        if let (Some(o), Some(it)) = (other.as_mut(), i.checked_sub(lag).and_then(|i| plan.items.get(i))) {
            o.item(it, plan, None);
        }
    }
    for e in [Some(&mut ex), other.as_mut()].into_iter().flatten() {
        if e.w.is_some() && !has_viol() && !e.oom {
            e.observe();
        }
    }
    let oom = ex.oom || other.as_ref().is_some_and(|o| o.oom);
    let lossy = other.as_ref().is_some_and(|o| o.lossy);
    if let Some(mut o) = other {
        o.finish(0);
        o.check_left();
        if !has_viol() && !ex.oom && ex.w.is_some() {
            // nothing of the first world went with it
            ex.observe();
        }
        ex.tr.append(&mut o.tr);
        ex.steps += o.steps;
    }
    ex.finish(plan.enddp);
    ex.check_left();
    res.oom = oom;
    res.lossy = lossy || ex.lossy;
    res.steps = ex.steps;
    res.transcript = ex.tr;
    res
}

pub fn profile_schedule(plan: &mut Plan, schedules: &[Vec<(u32, u8)>]) {
    let mut i = 0;
    for it in plan.items.iter_mut() {
        if let Item::Par { sched, .. } = it {
            if let Some(s) = schedules.get(i) {
                *sched = Strategy::Explicit(s.clone());
            }
            i += 1;
        }
    }
}

impl Ex {
    fn new(plan: &Plan, prereg: u32, af: u32) -> Ex {
        let mut ex = Ex { w: None, m: Model::default(), tr: vec![], oom: false, lossy: false, n: 0, steps: 0, live_before: 0, left: vec![] };
        alloc::clear_failure();
        alloc::arm_failure(af);
        let out = if plan.prereg % 3 == 1 { call(World::default) } else { call(World::new) };
        if ex.verdict("making a world", Want::Done, &out) {
            if let Out::Ok(w) = out {
                ex.w = Some(Box::new(w));
                for k in 0..NT as u8 {
                    if prereg >> k & 1 == 1 && !has_viol() {
                        ex.register(k);
                    }
                }
            }
        }
        let _ = plan;
        ex
    }

    fn item(&mut self, it: &Item, plan: &Plan, res: Option<&mut RunResult>) {
        if has_viol() || self.oom || self.w.is_none() {
            return;
        }
        self.n += 1;
        self.steps += 1;
        if mix(self.n ^ plan.profile.seed) % 12 == 0 {
            self.relocate();
        }
        let w: *const World = self.wp();
        let w = unsafe { &*w };
        let mut nil = RunResult::default();
        let first = res.is_some();
        let res = res.unwrap_or(&mut nil);
        match it {
            Item::Op(op) => self.op(op),
            Item::Q(q) => {
                let o = par::run_single(w, &mut self.m, std::slice::from_ref(q));
                self.tr.extend(o);
                self.check_drops(Drops::default(), "a query", false);
            }
            Item::Par { wpref, pre, sched, threads } => {
                if plan.serial || !first {
                    for t in threads {
                        let o = par::run_single(w, &mut self.m, t);
                        self.tr.extend(o);
                    }
                    res.schedules.push(vec![]);
                } else if cfg!(ellecs_sim) {
                    let (o, s) = par::run_parallel(w, &mut self.m, threads, sched.clone(), *wpref, *pre);
                    self.tr.extend(o);
                    self.steps += s.steps as u64;
                    res.traces.push(s.trace);
                    count("par.phases", 1);
                    count("par.switches", s.switches);
                    count("par.edges", s.edges);
                    count("fault.preempted_in_library", s.preempted);
                    res.schedules.push(s.log);
                    self.oom |= s.gave_up;
                }
                poll_alloc();
                self.check_drops(Drops::default(), "a parallel phase", false);
            }
        }
        if !has_viol() && !self.oom && plan.obs > 0 && self.n % plan.obs as u64 == 0 {
            self.observe();
        }
        res.items_done += 1;
        if res.states.len() < 64 {
            res.states.push(self.m.shape());
        }
    }

    /// The world moves to another place, as its owner may do with it
    fn relocate(&mut self) {
        let old = Box::into_raw(self.w.take().unwrap());
        self.w = Some(Box::new(unsafe { old.read() }));
        unsafe { std::slice::from_raw_parts_mut(old as *mut u8, std::mem::size_of::<World>()).fill(LEFT) };
        self.left.push(old as usize);
        count("run.world_moved", 1);
    }
    /// Nobody may have written where the world used to be
    fn check_left(&mut self) {
        for p in self.left.drain(..) {
            let n = std::mem::size_of::<World>();
            let p = p as *mut u8;
            if unsafe { std::slice::from_raw_parts(p, n) }.iter().any(|b| *b != LEFT) {
                viol("mem-uaf-write", "something was written where the world was before it was moved".into());
            }
            unsafe { std::alloc::dealloc(p, std::alloc::Layout::new::<World>()) };
        }
    }

    fn wp(&mut self) -> *mut World {
        &mut **self.w.as_mut().unwrap()
    }

    // ---- ids ----
    fn new_id(&mut self, id: EcsId, extra: usize) {
        let key = id.as_u64();
        if self.m.ever.contains(&key) {
            viol("id", format!("spawn returned the id {key:#x}, which had been returned before"));
        }
        if let Some(e) = self.m.slots.get(&id.uindex()) {
            viol("id", format!("spawn returned {key:#x} while {e:#x} lives in the same slot"));
        }
        self.m.peak = self.m.peak.max(self.live_before + 1 + self.m.lost + extra);
        if id.uindex() >= self.m.peak {
            viol(
                "slot-leak",
                format!("spawn opened slot {} although at most {} entities ever existed at once: earlier slots were lost", id.uindex(), self.m.peak),
            );
        }
        let w = self.wp();
        match call(|| unsafe { (*w).is_alive(id) }) {
            Out::Ok(true) => (),
            Out::Ok(false) => viol("id", format!("{key:#x} is not alive after its spawn")),
            Out::Panic(p) => viol("panic", format!("is_alive: {p}")),
            _ => (),
        }
        self.tr.push(key);
    }

    fn register(&mut self, k: u8) -> Option<EcsId> {
        if let Some(id) = self.m.types[k as usize] {
            return Some(id);
        }
        self.live_before = self.m.ents.len();
        let w = self.wp();
        let r = call(|| unsafe { with_k!(k, T => (*w).get_or_create_type_id_ecsid::<T>()) });
        match r {
            Out::Ok(id) => {
                self.new_id(id, 0);
                self.m.insert(id, CKind::T(k), vec![], Some(k));
                self.m.types[k as usize] = Some(id);
                Some(id)
            }
            Out::Panic(p) => {
                viol("panic", format!("registering a type panicked: {p}"));
                None
            }
            _ => None,
        }
    }

    /// Types used through the typed interface have ids now
    fn sync_types(&mut self, ks: &[u8]) {
        let before = self.live_before;
        for &k in ks {
            if self.m.types[k as usize].is_none() {
                self.register(k);
            }
        }
        self.live_before = before;
    }

    // ---- destructors ----
    fn check_drops(&mut self, want: Drops, what: &str, lenient: bool) {
        let r = reg();
        let mut log = std::mem::take(&mut r.log);
        let z = std::mem::take(&mut r.zlog);
        let mut want_i = want.insts.clone();
        want_i.sort();
        log.sort();
        for i in &want_i {
            if log.binary_search(i).is_err() {
                if lenient {
                    r.insts[*i as usize].may_leak = true;
                } else {
                    viol("drop-missing", format!("value #{i} ({}) should have been dropped by {what} and was not", NAMES[r.insts[*i as usize].kind as usize]));
                }
            }
        }
        for i in &log {
            if want_i.binary_search(i).is_err() && !r.insts[*i as usize].may_leak {
                viol("drop-early", format!("value #{i} ({}) was dropped by {what}, which should not touch it", NAMES[r.insts[*i as usize].kind as usize]));
            }
        }
        for k in 0..NT {
            let short = want.z[k] - z[k];
            if short > 0 {
                if lenient {
                    r.zslack[k] += short;
                } else {
                    viol("drop-missing", format!("{short} zero-sized {} should have been dropped by {what} and were not", NAMES[k]));
                }
            }
            if short < 0 && -short > r.zslack[k] {
                viol("drop-early", format!("{} zero-sized {} were dropped by {what}, which should not touch them", -short, NAMES[k]));
            } else if short < 0 {
                r.zslack[k] += short;
            }
        }
    }
    fn may_leak(&self, m: &Made) {
        if m.kind.tracked() {
            reg().insts[m.val.inst as usize].may_leak = true;
        }
        if let Some(z) = m.kind.zdrop() {
            reg().zslack[z] += 1;
        }
    }

    fn oomed(&mut self) {
        count("fault.alloc_failure", 1);
        self.oom = true;
        // (values lost or dropped by it are accounted for when the world is dropped)
        reg().log.clear();
        reg().zlog = [0; NT];
    }
    /// Compare how an operation ended with how it should have; true if it took effect.
    fn verdict<R>(&mut self, what: &str, want: Want, out: &Out<R>) -> bool {
        alloc::disarm_failure();
        let dpanic = std::mem::take(&mut reg().panicked);
        reg().panic_in = 0;
        if alloc::failure_fired() {
            if !alloc::failure_reported() {
                viol("oom-ignored", format!("{what}: a failed allocation was not reported"));
            } else if !matches!(out, Out::Oom) {
                viol("oom-ignored", format!("{what}: went on after a failed allocation was reported"));
            }
            self.oomed();
            return false;
        }
        if dpanic {
            self.lossy = true;
            if !matches!(out, Out::Injected) {
                viol("dtor-panic", format!("{what}: a destructor's panic did not reach the caller"));
            }
            return true;
        }
        match (want, out) {
            (_, Out::Abort) => false,
            (Want::Done, Out::Ok(_)) => true,
            (Want::Done, Out::Panic(p)) => {
                viol("panic", format!("{what} panicked: {p}"));
                false
            }
            (Want::Done, _) => {
                viol("panic", format!("{what} unwound without a cause"));
                false
            }
            (Want::Refused, Out::Panic(_)) => {
                count("fault.refused_panic", 1);
                false
            }
            (Want::Refused, Out::Ok(_)) => {
                count("fault.refused_quiet", 1);
                false
            }
            (Want::Refused, _) => false,
        }
    }

    fn arm(&self, op: &Op, want: Want) {
        alloc::clear_failure();
        reg().panicked = false;
        if want == Want::Done {
            reg().panic_in = op.dp;
            alloc::arm_failure(op.af);
        }
    }

    // ---- operations ----
    fn op(&mut self, op: &Op) {
        self.live_before = self.m.ents.len();
        match op.code.as_str() {
            "spawn" | "spawnmeta" | "spawnt" | "abandon" | "abandonpanic" | "forget" | "buildtwice" => self.build(op),
            "reg" => {
                if let Ref::T(k) = op.h {
                    let id = self.register(k);
                    if let Some(id) = id {
                        let w = self.wp();
                        if let Out::Ok(again) = call(|| unsafe { with_k!(k, T => (*w).get_or_create_type_id_ecsid::<T>()) }) {
                            if again != id {
                                viol("api", format!("type {} has two ids at once", NAMES[k as usize]));
                            }
                        }
                    }
                }
            }
            "despawn" => self.despawn(op),
            "add" => self.add(op),
            "remove" => self.remove(op),
            "write" => self.write(op),
            "observe" => self.observe(),
            // many alike
            "crowd" => {
                if let Ref::E(h) = op.h {
                    let each: usize = op.c.clone().iter().filter_map(|c| self.comp(*c)).map(|c| c.2.size()).sum();
                    let room = (64 << 20) / each.max(1) as u64;
                    for i in 0..op.n.min(1 << 17).min(room.max(600)) as u32 {
                        if has_viol() || self.oom {
                            break;
                        }
                        self.live_before = self.m.ents.len();
                        let one = Op { code: "spawn".into(), h: Ref::E(h + i), x: mix(op.x ^ i as u64) >> 20, ..op.clone() };
                        self.build(&one);
                        self.steps += 1;
                    }
                }
            }
            // more archetypes than a small integer counts; with y = 0 every one has a lock of its own
            "vast" => {
                if let Ref::E(first) = op.h {
                    let n = op.n.min(1 << 17) as u32;
                    let one = |code: &str, h: u32, c: Vec<Ref>, i: u32| Op { code: code.into(), h: Ref::E(h), c, x: mix(op.x ^ i as u64) >> 20, y: 0, n: 0, dp: 0, af: 0 };
                    if op.y == 0 {
                        for i in 0..n {
                            self.live_before = self.m.ents.len();
                            self.build(&one("spawn", first + 2 * i, vec![], i));
                            self.live_before = self.m.ents.len();
                            self.build(&one("spawn", first + 2 * i + 1, vec![Ref::E(first + 2 * i)], i));
                            self.steps += 2;
                            if has_viol() || self.oom {
                                break;
                            }
                        }
                    } else {
                        for i in 0..18 {
                            self.live_before = self.m.ents.len();
                            self.build(&one("spawn", first + i, vec![], i));
                        }
                        // one entity through every set of the other 17
                        for i in 1..n {
                            if has_viol() || self.oom {
                                break;
                            }
                            self.live_before = self.m.ents.len();
                            let bit = i.trailing_zeros();
                            let on = (i ^ i >> 1) >> bit & 1 == 1;
                            let mut o = one(if on { "add" } else { "remove" }, first + 17, vec![Ref::E(first + bit)], i);
                            o.y = 1;
                            if on {
                                self.add(&o)
                            } else {
                                self.remove(&o)
                            }
                            self.steps += 1;
                        }
                    }
                    count("op.vast", n as u64);
                }
            }
            // many queries at once
            "hoard" => {
                let w: *const World = self.wp();
                let mut comps: Vec<EcsId> = vec![];
                for r in &op.c {
                    if let Some(id) = self.m.resolve(*r).filter(|i| self.m.alive(*i)) {
                        if !comps.contains(&id) {
                            comps.push(id);
                        }
                    }
                }
                let o = par::hoard(unsafe { &*w }, &self.m, &comps, op.n.min(1 << 18), op.y, op.x);
                self.tr.extend(o);
                self.check_drops(Drops::default(), "holding many queries", false);
            }
            // more lifetimes of one slot than can be remembered
            "spin" => self.spin(op.n.min(1 << 25)),
            "flood" => self.flood(op.n.min(1 << 21), op.y),
            // an entity with many components
            "pile" => {
                if let Ref::E(first) = op.h {
                    let Some(&to) = op.c.first() else { return };
                    let n = op.n.min(400);
                    for i in 0..n {
                        if has_viol() || self.oom {
                            break;
                        }
                        self.live_before = self.m.ents.len();
                        // by layout or as a tag; added in order or not
                        let h = Ref::E(first + i as u32);
                        let code = if mix(op.x ^ i) % 3 == 0 { "spawnmeta" } else { "spawn" };
                        let mut one = Op { code: code.into(), h, c: vec![], x: op.x + i, y: (mix(op.x ^ i) >> 8 & 0xFF) & !1, n: 0, dp: 0, af: 0 };
                        self.build(&one);
                        if op.y == 0 {
                            one.code = "add".into();
                            one.h = to;
                            one.c = vec![h];
                            one.y = 1;
                            one.af = op.af;
                            self.add(&one);
                        }
                        self.steps += 2;
                    }
                    for i in 0..n {
                        if has_viol() || self.oom || op.y == 0 {
                            break;
                        }
                        self.live_before = self.m.ents.len();
                        let j = if op.y == 1 { n - 1 - i } else { (i * 37 + op.y) % n };
                        let one = Op { code: "add".into(), h: to, c: vec![Ref::E(first + j as u32)], x: op.x * 3 + j, y: 1, n: 0, dp: 0, af: op.af };
                        self.add(&one);
                        self.steps += 1;
                    }
                    count("op.piled", n);
                }
            }
            // many despawned, in some order
            "wipe" => {
                if let Ref::E(h) = op.h {
                    let n = op.n.min(1 << 17);
                    for i in 0..n {
                        if has_viol() || self.oom {
                            break;
                        }
                        // 0: as created, 1: backwards, else: back and forth
                        let j = match op.y {
                            0 => i,
                            1 => n - 1 - i,
                            _ if i % 2 == 0 => i / 2,
                            _ => n - 1 - i / 2,
                        };
                        self.live_before = self.m.ents.len();
                        let one = Op { code: "despawn".into(), h: Ref::E(h + j as u32), ..op.clone() };
                        self.despawn(&one);
                        self.steps += 1;
                    }
                }
            }
            // the same slot over and over
            "churn" | "churnab" => {
                let mut worn: BTreeMap<usize, Vec<EcsId>> = BTreeMap::new();
                for i in 0..op.n.min(1 << 17) {
                    if has_viol() || self.oom {
                        break;
                    }
                    self.live_before = self.m.ents.len();
                    let code = if op.code == "churn" { "spawn" } else { "abandon" };
                    let one = Op { code: code.into(), x: mix(op.x ^ i) >> 20, af: 0, dp: 0, ..op.clone() };
                    self.build(&one);
                    if op.code == "churn" && !has_viol() {
                        // ids the slot had a power of two lifetimes ago, and the first
                        if let Some(id) = self.m.resolve(op.h) {
                            let slot = worn.entry(id.uindex()).or_insert_with(|| {
                                self.m.dead.iter().filter(|d| d.uindex() == id.uindex()).copied().collect::<Vec<_>>()
                            });
                            let n = slot.len();
                            let mut old: Vec<EcsId> = slot.iter().take(2).copied().collect();
                            old.extend([0, 4, 7, 8, 15, 16].iter().filter_map(|b| n.checked_sub(1 << b)).map(|i| slot[i]));
                            slot.push(id);
                            for d in old {
                                if has_viol() {
                                    break;
                                }
                                self.glance(d);
                                let w = self.wp();
                                if i % 251 < 3 && !has_viol() {
                                    if let Out::Ok(true) = call(|| unsafe { (*w).despawn(d) }) {
                                        viol("id", format!("despawning the dead {:#x} is reported to succeed", d.as_u64()));
                                    }
                                }
                            }
                        }
                        if has_viol() {
                            break;
                        }
                        self.despawn(&one);
                    }
                    self.steps += 2;
                }
                count("op.churned", op.n);
            }
            _ => (),
        }
        if !has_viol() && !self.oom {
            if let Some(id) = self.m.resolve(op.h) {
                self.glance(id);
            }
            let n = self.m.ents.len() as u64;
            if n > 0 {
                let i = mix(self.n ^ 0x61) % n;
                let id = self.m.ents.values().nth(i as usize).unwrap().id;
                self.glance(id);
            }
        }
    }

    /// More entities at once than fit 20 bits
    fn flood(&mut self, n: u64, order: u64) {
        let w = self.wp();
        let mut ids: Vec<EcsId> = Vec::with_capacity(n as usize);
        for i in 0..n {
            let Out::Ok(id) = call(|| unsafe { (*w).spawn().build() }) else {
                viol("panic", format!("spawning entity {i} of many panicked"));
                return;
            };
            ids.push(id);
        }
        let (a, b) = (ids[0].as_u64(), ids[ids.len() - 1].as_u64());
        let mut all: Vec<u64> = ids.iter().map(|i| i.as_u64()).collect();
        all.extend(self.m.ents.keys());
        all.sort_unstable();
        if let Some(d) = all.windows(2).find(|d| d[0] == d[1]) {
            viol("id", format!("two live entities have the id {:#x}", d[0]));
            return;
        }
        drop(all);
        let wr: &World = unsafe { &*w };
        let alive = sut(|| ids.iter().filter(|i| wr.is_alive(**i)).count());
        if alive as u64 != n {
            viol("id", format!("{alive} of {n} entities that were spawned are alive"));
            return;
        }
        for i in 0..n as usize {
            let j = match order % 3 {
                0 => i,
                1 => ids.len() - 1 - i,
                _ => (i * 7919) % ids.len(),
            };
            let id = ids[j];
            match call(|| unsafe { (*w).despawn(id) }) {
                Out::Ok(true) => (),
                // every one is despawned once, unless the order visits it twice
                Out::Ok(false) if order % 3 == 2 && n % 7919 == 0 => (),
                Out::Ok(false) => {
                    viol("id", format!("despawning the live entity {:#x} reported failure", id.as_u64()));
                    return;
                }
                _ => {
                    viol("panic", format!("despawning entity {i} of many panicked"));
                    return;
                }
            }
        }
        if let Some(i) = sut(|| ids.iter().find(|i| wr.is_alive(**i))) {
            viol("id", format!("the dead entity {:#x} is reported alive", i.as_u64()));
            return;
        }
        for id in [a, b] {
            self.tr.push(id);
        }
        let k = ids.len();
        for i in [0, 1, k / 2, k - 2, k - 1] {
            self.m.ever.insert(ids[i].as_u64());
            self.m.dead.push(ids[i]);
        }
        self.m.peak = self.m.peak.max(self.m.ents.len() + k);
        self.steps += 2 * n;
        count("op.flooded", n);
    }

    fn spin(&mut self, n: u64) {
        let w = self.wp();
        let mut old: Vec<EcsId> = vec![];
        let peak = self.m.peak.max(self.m.ents.len() + 1 + self.m.lost);
        let mut last = None;
        for i in 0..n {
            let out = call(|| unsafe {
                let id = (*w).spawn().build();
                let alive = (*w).is_alive(id);
                let stale = old.get(i as usize % 8).is_some_and(|o| (*w).is_alive(*o));
                (id, alive, stale, (*w).despawn(id), (*w).is_alive(id))
            });
            let Out::Ok((id, alive, stale, gone, still)) = out else {
                viol("panic", format!("lifetime {i} of a slot: spawning or despawning panicked"));
                return;
            };
            if !alive || !gone || still || stale {
                viol("id", format!("lifetime {i} of {:#x}: alive {alive}, despawn succeeded {gone}, alive afterwards {still}, an older id alive {stale}", id.as_u64()));
                return;
            }
            if Some(id) == last || old.contains(&id) || self.m.ents.contains_key(&id.as_u64()) || i < 4096 && self.m.ever.contains(&id.as_u64()) {
                viol("id", format!("lifetime {i} of a slot: spawn returned {:#x}, which had been returned before", id.as_u64()));
                return;
            }
            if id.uindex() >= peak {
                viol("slot-leak", format!("spawn opened slot {} although at most {peak} entities ever existed at once", id.uindex()));
                return;
            }
            last = Some(id);
            if i < 2 || (i + 1).is_power_of_two() && i >= 127 {
                old.push(id);
                self.m.ever.insert(id.as_u64());
                self.m.dead.push(id);
            }
        }
        self.m.peak = peak;
        if let Some(id) = last {
            self.tr.push(id.as_u64());
        }
        self.steps += n;
        count("op.spun", n);
    }

    fn build(&mut self, op: &Op) {
        struct C {
            k: Option<u8>,
            id: Option<EcsId>,
            kind: CKind,
            dataless: bool,
            pay: u64,
        }
        let mut cs: Vec<C> = vec![];
        let mut refused_at: Option<usize> = None;
        let refusal = |i: usize, r: &mut Option<usize>| {
            if r.is_none() {
                *r = Some(i)
            }
        };
        let forget = op.code == "forget";
        let incomplete = op.code == "abandon" || op.code == "abandonpanic" || forget;
        let mut keys: Vec<(Option<u8>, Option<EcsId>)> = vec![];
        let mut dup = false;
        let mut typed_new: Vec<u8> = vec![];
        // Would this be refused (or abandoned)? Then types are registered first, as that has an effect of its own.
        let mut pre = incomplete || op.code == "buildtwice";
        for (i, r) in op.c.iter().enumerate().take(12) {
            let wants_dyn = op.y >> (8 + i) & 1 == 1;
            match *r {
                Ref::T(k) if !wants_dyn => {
                    let id = self.m.types[k as usize];
                    cs.push(C { k: Some(k), id, kind: CKind::T(k), dataless: false, pay: 0 });
                }
                _ => {
                    let Some(id) = self.m.resolve(*r) else { continue };
                    let kind = self.m.kind(id);
                    let needs = kind.is_some_and(|k| k.needs_data());
                    let dataless = op.y >> (20 + i) & 1 == 1 && (!needs || op.y >> (32 + i) & 1 == 1);
                    if kind.is_none() || (dataless && needs) {
                        refusal(cs.len(), &mut refused_at);
                    }
                    cs.push(C { k: None, id: Some(id), kind: kind.unwrap_or(CKind::Tag), dataless, pay: 0 });
                }
            }
        }
        if let Some(at) = refused_at {
            pre = true;
            cs.truncate(at + 1);
        }
        for c in &cs {
            // Two names of the same id
            let key = (if c.id.is_none() { c.k } else { None }, c.id);
            if keys.contains(&key) {
                dup = true;
            }
            keys.push(key);
        }
        if dup {
            pre = true;
        }
        for i in 0..cs.len() {
            cs[i].pay = mix(op.x.wrapping_mul(64).wrapping_add(i as u64 + 1)) & 0xFFFF_FFFF_FFFF;
            if let Some(k) = cs[i].k {
                if pre {
                    cs[i].id = self.register(k);
                } else if self.m.types[k as usize].is_none() && !typed_new.contains(&k) {
                    typed_new.push(k);
                }
            }
        }
        if has_viol() {
            return;
        }
        self.live_before = self.m.ents.len();
        let kind = match (op.code.as_str(), op.h) {
            ("spawnmeta", _) => raw_of(op.y),
            ("spawnt", _) => CKind::T((op.y % NT as u64) as u8),
            _ => CKind::Tag,
        };
        let want = if refused_at.is_some() || dup { Want::Refused } else { Want::Done };
        let twice = op.code == "buildtwice";
        let abandon = op.code == "abandon";
        let abandon_panic = op.code == "abandonpanic";
        let w = self.wp();
        let mut handed: Vec<Made> = vec![];
        let mut current: Option<Made> = None;
        let mut second: Option<Option<EcsId>> = None;
        self.arm(op, want);
        let n_all = cs.len();
        let stop_after = if incomplete && !op.c.is_empty() { (op.y as usize & 0xFF) % (n_all + 1) } else { n_all };
        let by_macro = op.code == "spawn" && op.y & 3 == 2 && cs.len() <= 2 && cs.iter().all(|c| c.k.is_some());
        let short: Vec<(u8, u64)> = if by_macro { cs.iter().map(|c| (c.k.unwrap(), c.pay)).collect() } else { vec![] };
        let out = call(|| unsafe {
            let w = &mut *w;
            if by_macro {
                return Some(spawn_by_macro(w, &short, &mut current, &mut handed));
            }
            let mut b = match kind {
                CKind::T(k) => with_k!(k, T => w.spawn_with_component_meta(ComponentMeta::from_generic::<T>())),
                CKind::Raw(s, a) => w.spawn_with_component_meta(ComponentMeta::from_size_align(s as usize, a as usize)),
                CKind::Tag if op.y & 1 == 1 => w.spawn_with_capacity(capacity(op.y >> 1 & 0x3F)),
                CKind::Tag => w.spawn(),
            };
            for c in cs.iter().take(stop_after) {
                if let Some(k) = c.k {
                    with_k!(k, T => {
                        let v = harness(|| {
                            let v = T::make(c.pay);
                            current = Some(made(CKind::T(k), T::read(&v).unwrap()));
                            v
                        });
                        b = b.with(v);
                    });
                } else if c.dataless {
                    harness(|| current = Some(made(CKind::Tag, Val { inst: 0, pay: 0 })));
                    b = b.with_dynamic(c.id.unwrap());
                } else {
                    let l = harness(|| {
                        let l = Loose::new(c.kind, c.pay);
                        current = Some(made(c.kind, l.val));
                        l
                    });
                    b = b.with_dynamic_with_data(l.ptr, c.id.unwrap());
                    harness(|| drop(l));
                }
                harness(|| handed.push(current.take().unwrap()));
            }
            if abandon {
                drop(b);
                return None;
            }
            if forget {
                // safe, if careless: nothing may break
                std::mem::forget(b);
                return None;
            }
            if abandon_panic {
                std::panic::panic_any(Injected);
            }
            let id = b.build();
            if twice {
                let r = catch_unwind(AssertUnwindSafe(|| b.build()));
                harness(|| second = Some(r.ok()));
            }
            Some(id)
        });
        if let Some(c) = &current {
            self.may_leak(c);
        }
        let what = op.code.clone();
        if abandon_panic && matches!(out, Out::Injected) && !reg().panicked && !alloc::failure_fired() {
            alloc::disarm_failure();
            reg().panic_in = 0;
            count("fault.abandoned_by_panic", 1);
            self.dropped(&handed, "abandoning a builder", false);
            return;
        }
        let pan = reg().panicked;
        let done = self.verdict(&what, want, &out);
        if self.oom {
            for h in &handed {
                self.may_leak(h);
            }
            return;
        }
        if forget && matches!(out, Out::Ok(_)) {
            count("fault.forgotten_builder", 1);
            self.m.lost += 1;
            self.m.peak = self.m.peak.max(self.live_before + 1 + self.m.lost);
            self.lossy = true;
            for h in &handed {
                self.may_leak(h);
            }
            self.check_drops(Drops::default(), "forgetting a builder", false);
            return;
        }
        if want == Want::Refused {
            if let Out::Ok(_) = out {
                if !incomplete {
                    viol("refusal", format!("an entity was built from {}", if dup { "one component twice" } else { "a dead or unsuitable component" }));
                }
            }
            self.m.peak = self.m.peak.max(self.live_before + 1 + self.m.lost);
            self.dropped(&handed, "a refused builder", false);
            return;
        }
        if !done {
            return;
        }
        if incomplete {
            count("fault.abandoned_builder", 1);
            self.m.peak = self.m.peak.max(self.live_before + 1 + self.m.lost);
            self.dropped(&handed, "abandoning a builder", pan);
            return;
        }
        if let Out::Ok(Some(id)) = out {
            let extra = typed_new.len();
            self.new_id(id, extra);
            if let Some(s) = second {
                count("fault.built_twice", 1);
                if let Some(id2) = s {
                    if id2 != id {
                        viol("refusal", "building twice gave two ids".into());
                    }
                }
            }
            self.m.insert(id, kind, vec![], None);
            self.sync_types(&typed_new);
            for (c, h) in cs.iter().zip(&handed) {
                let cid = match c.k {
                    Some(k) => self.m.types[k as usize],
                    None => c.id,
                };
                if let Some(cid) = cid {
                    self.m.add(id, cid, h.val);
                }
            }
            if let Ref::E(n) = op.h {
                self.m.handles.insert(n, id);
            }
            self.check_drops(Drops::default(), "building an entity", false);
        }
    }

    fn dropped(&mut self, ms: &[Made], what: &str, lenient: bool) {
        let mut d = Drops::default();
        for m in ms {
            d.add(m.kind, m.val);
        }
        self.check_drops(d, what, lenient);
    }

    fn despawn(&mut self, op: &Op) {
        let Some(id) = self.m.resolve(op.h) else { return };
        let alive = self.m.alive(id);
        let carriers = self.m.carriers(id);
        let w = self.wp();
        self.arm(op, if alive { Want::Done } else { Want::Refused });
        let out = call(|| unsafe { (*w).despawn(id) });
        let panicked = reg().panicked;
        if !alive {
            self.verdict("despawning a dead entity", Want::Refused, &out);
            count("fault.stale_request", 1);
            if let Out::Ok(true) = out {
                viol("id", format!("despawning the dead entity {:#x} reported success", id.as_u64()));
            }
            self.check_drops(Drops::default(), "a refused despawn", false);
            return;
        }
        let done = self.verdict(if carriers.is_empty() { "despawn" } else { "despawning an entity used as a component" }, Want::Done, &out);
        if !done {
            return;
        }
        if !carriers.is_empty() {
            count("op.component_despawned", 1);
        }
        if let Out::Ok(false) = out {
            viol("id", format!("despawning the live entity {:#x} reported failure", id.as_u64()));
        }
        if panicked && !carriers.is_empty() {
            self.resync_despawn(id, &carriers);
            return;
        }
        let mut d = Drops::default();
        self.m.despawn(id, &mut d);
        self.check_drops(d, "a despawn", panicked);
        if let Out::Ok(a) = call(|| unsafe { (*w).is_alive(id) }) {
            if a {
                viol("id", format!("{:#x} is still alive after its despawn{}", id.as_u64(), if panicked { " (whose destructor panicked)" } else { "" }));
            }
        }
        self.tr.push(1);
    }

    /// A destructor panicked somewhere in the despawn of a component: either the despawn is complete, or it can
    /// be repeated; every carrier either still has its intact value, or has lost the component.
    fn resync_despawn(&mut self, id: EcsId, carriers: &[u64]) {
        let w = self.wp();
        let alive = matches!(call(|| unsafe { (*w).is_alive(id) }), Out::Ok(true));
        if !alive {
            let mut d = Drops::default();
            self.m.despawn(id, &mut d);
            self.check_drops(d, "despawning a component (with a panicking destructor)", true);
            return;
        }
        count("op.component_despawn_interrupted", 1);
        let kind = self.m.kind(id).unwrap();
        let mut d = Drops::default();
        for c in carriers {
            let e = self.m.ents[c].id;
            let has = match call(|| unsafe { (*w).get_component_mut_dynamic(e, id) }) {
                Out::Ok(p) => p,
                Out::Panic(p) => {
                    viol("panic", format!("get_component_mut_dynamic panicked: {p}"));
                    return;
                }
                _ => return,
            };
            match has {
                Some(p) => {
                    let want = self.m.ents[c].comps[&id.as_u64()];
                    match kind.read(p) {
                        Ok(v) if v == want => (),
                        other => viol("state", format!("after an interrupted despawn of a component {c:#x} has {other:?} instead of {want:?}")),
                    }
                }
                None => self.m.remove(e, id, &mut d),
            }
        }
        self.check_drops(d, "an interrupted despawn of a component", true);
    }

    fn comp(&mut self, r: Ref) -> Option<(Option<EcsId>, Option<u8>, CKind)> {
        match r {
            Ref::T(k) => Some((self.m.resolve(r), Some(k), CKind::T(k))),
            Ref::E(_) => {
                let id = self.m.resolve(r)?;
                Some((Some(id), None, self.m.kind(id).unwrap_or(CKind::Tag)))
            }
        }
    }

    fn add(&mut self, op: &Op) {
        let Some(e) = self.m.resolve(op.h) else { return };
        let Some(r) = op.c.first() else { return };
        let Some((mut cid, tk, kind)) = self.comp(*r) else { return };
        let api = op.y & 3;
        let typed = tk.is_some() && (api == 0 || cid.is_none());
        if typed && self.m.types[tk.unwrap() as usize].is_none() {
            cid = None;
        }
        let dataless = !typed && api == 2;
        let alive = self.m.alive(e);
        let calive = typed || cid.is_some_and(|c| self.m.alive(c));
        let present = cid.is_some_and(|c| self.m.has(e, c));
        let want = if alive && calive && !present && !(dataless && kind.needs_data()) { Want::Done } else { Want::Refused };
        let fresh = typed && cid.is_none();
        let pay = mix(op.x.wrapping_mul(64)) & 0xFFFF_FFFF_FFFF;
        let w = self.wp();
        self.live_before = self.m.ents.len();
        self.arm(op, want);
        let mut m: Option<Made> = None;
        let out = if typed {
            let k = tk.unwrap();
            with_k!(k, T => {
                let v = T::make(pay);
                m = Some(made(kind, T::read(&v).unwrap()));
                call(|| unsafe { (*w).add_component::<T>(e, v) })
            })
        } else if dataless {
            let c = cid.unwrap();
            call(|| unsafe { (*w).add_component_dynamic(e, c) })
        } else {
            let c = cid.unwrap();
            let l = Loose::new(kind, pay);
            m = Some(made(kind, l.val));
            call(|| unsafe { (*w).add_component_dynamic_with_data(e, c, l.ptr) })
        };
        // What is handed over by value and refused is dropped, what is behind a pointer may be leaked
        let mut d = Drops::default();
        if let (Want::Refused, Some(m)) = (want, &m) {
            match typed {
                true => d.add(m.kind, m.val),
                false => self.may_leak(m),
            }
        }
        let done = self.verdict("adding a component", want, &out);
        if self.oom {
            if let Some(m) = &m {
                self.may_leak(m);
            }
            return;
        }
        if done {
            if fresh {
                self.sync_types(&[tk.unwrap()]);
                cid = self.m.types[tk.unwrap() as usize];
            }
            if let Some(c) = cid {
                self.m.add(e, c, m.map(|m| m.val).unwrap_or(Val { inst: 0, pay: 0 }));
            }
            self.tr.push(2);
        }
        self.check_drops(d, if want == Want::Done { "adding a component" } else { "a refused addition of a component" }, false);
    }

    fn remove(&mut self, op: &Op) {
        let Some(e) = self.m.resolve(op.h) else { return };
        let Some(r) = op.c.first() else { return };
        let Some((mut cid, tk, _)) = self.comp(*r) else { return };
        let typed = tk.is_some() && (op.y & 1 == 0 || cid.is_none());
        if typed && self.m.types[tk.unwrap() as usize].is_none() {
            // a type the world does not know, and need not learn of
            cid = None;
        }
        if !typed && cid.is_none() {
            return;
        }
        let want = if cid.is_some_and(|c| self.m.has(e, c)) { Want::Done } else { Want::Refused };
        let w = self.wp();
        self.arm(op, want);
        let out = if typed {
            with_k!(tk.unwrap(), T => call(|| unsafe { (*w).remove_component::<T>(e) }))
        } else {
            call(|| unsafe { (*w).remove_component_dynamic(e, cid.unwrap()) })
        };
        let panicked = reg().panicked;
        let mut d = Drops::default();
        if self.verdict("removing a component", want, &out) {
            self.m.remove(e, cid.unwrap(), &mut d);
            self.tr.push(3);
        }
        if !self.oom {
            self.check_drops(d, "removing a component", panicked);
        }
    }

    fn write(&mut self, op: &Op) {
        let Some(e) = self.m.resolve(op.h) else { return };
        let Some(r) = op.c.first() else { return };
        let Some((cid, tk, kind)) = self.comp(*r) else { return };
        let Some(c) = cid else { return };
        let has = self.m.has(e, c);
        let w = self.wp();
        let pay = kind.mask(mix(op.x.wrapping_mul(64) ^ 0x77));
        let is_type = tk.is_some() && self.m.types[tk.unwrap() as usize] == Some(c);
        let p: Option<*mut u8> = if is_type && op.y & 1 == 0 {
            let Some(qi) = STATIC_M.get(tk.unwrap() as usize) else { return };
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut q = open(*qi, unsafe { &*w });
                let r = q.get(e);
                sut(|| drop(q));
                r
            }));
            match r {
                Ok(None) => None,
                Ok(Some(v)) => match v[0] {
                    Cell::P(p) => Some(p),
                    _ => None,
                },
                Err(p) => {
                    viol("panic", format!("a point lookup panicked: {}", payload(&*p)));
                    return;
                }
            }
        } else {
            match call(|| unsafe { (*w).get_component_mut_dynamic(e, c) }) {
                Out::Ok(p) => p,
                Out::Panic(p) => {
                    viol("panic", format!("get_component_mut_dynamic panicked: {p}"));
                    return;
                }
                _ => return,
            }
        };
        match p {
            None if has => viol("state", format!("component {:#x} of {:#x} cannot be found", c.as_u64(), e.as_u64())),
            Some(_) if !has => viol("state", format!("component {:#x} was found on {:#x}, which does not have it", c.as_u64(), e.as_u64())),
            Some(p) => {
                let want = self.m.ent(e).unwrap().comps[&c.as_u64()];
                match kind.read(p) {
                    Ok(v) if v == want => {
                        kind.write(p, pay);
                        self.m.ents.get_mut(&e.as_u64()).unwrap().comps.get_mut(&c.as_u64()).unwrap().pay = pay;
                    }
                    other => viol("state", format!("component {:#x} of {:#x} is {other:?} instead of {want:?}", c.as_u64(), e.as_u64())),
                }
            }
            None => count("op.absent_write", 1),
        }
        self.check_drops(Drops::default(), "a write", false);
    }

    // ---- observation ----
    /// A quick look at one entity.
    fn glance(&mut self, id: EcsId) {
        let w = self.wp();
        let alive = self.m.alive(id);
        match call(|| unsafe { (*w).is_alive(id) }) {
            Out::Ok(a) if a == alive => (),
            Out::Ok(a) => viol("id", format!("{:#x} is reported {}", id.as_u64(), if a { "alive" } else { "dead" })),
            Out::Panic(p) => viol("panic", format!("is_alive panicked: {p}")),
            _ => (),
        }
        let comps: Vec<(u64, Val)> = self.m.ent(id).map(|e| e.comps.iter().map(|(a, b)| (*a, *b)).collect()).unwrap_or_default();
        for (c, v) in comps {
            let cid = self.m.ents[&c].id;
            let kind = self.m.ents[&c].kind;
            match call(|| unsafe { (*w).get_component_mut_dynamic(id, cid) }) {
                Out::Ok(Some(p)) => match kind.read(p) {
                    Ok(x) if x == v => (),
                    other => viol("state", format!("component {c:#x} of {:#x} is {other:?} instead of {v:?}", id.as_u64())),
                },
                Out::Ok(None) => viol("state", format!("component {c:#x} of {:#x} is gone", id.as_u64())),
                Out::Panic(p) => viol("panic", format!("get_component_mut_dynamic panicked: {p}")),
                _ => (),
            }
        }
    }

    fn observe(&mut self) {
        count("observations", 1);
        let w = self.wp();
        let wr: &World = unsafe { &*w };
        // every live entity, twice over
        for st in [false, true] {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut ids: Vec<u64> = vec![];
                let cap = self.m.ents.len() * 2 + 16;
                let mut q = if st { open(0, wr) } else { open_dyn(&[DAcc::E], wr) };
                q.rows(&mut |c| {
                    if let Cell::Id(i) = c[0] {
                        ids.push(i.as_u64());
                    }
                    ids.len() < cap
                });
                sut(|| drop(q));
                ids
            }));
            match r {
                Ok(mut ids) => {
                    self.tr.extend(ids.iter());
                    ids.sort();
                    let want: Vec<u64> = self.m.ents.keys().copied().collect();
                    if ids != want {
                        let extra: Vec<String> = ids.iter().filter(|x| !self.m.ents.contains_key(x)).map(|x| format!("{x:#x}")).take(20).collect();
                        let missing: Vec<String> = want.iter().filter(|x| ids.binary_search(x).is_err()).map(|x| format!("{x:#x}")).take(20).collect();
                        viol("state", format!("iterating all entities gives {} of {}: missing {missing:?}, extra {extra:?}", ids.len(), want.len()));
                        return;
                    }
                }
                Err(p) => {
                    viol("panic", format!("iterating all entities panicked: {}", payload(&*p)));
                    return;
                }
            }
        }
        // every component, every cell
        let mut addr: BTreeMap<(u64, u64), usize> = BTreeMap::new();
        let comps: Vec<(u64, EcsId, CKind)> =
            self.m.ents.values().filter(|e| e.carried || e.ty.is_some()).map(|e| (e.id.as_u64(), e.id, e.kind)).collect();
        let sampled = comps.len() * self.m.ents.len() > 4_000_000;
        let comps: Vec<_> = if sampled {
            // some of them
            let every = (comps.len() * self.m.ents.len() / 4_000_000).clamp(1, comps.len() / 8);
            let n = comps.len();
            comps.into_iter().enumerate().filter(|(i, _)| *i < 2 || i + 3 > n || (*i as u64 + self.n) % every as u64 == 0).map(|x| x.1).collect()
        } else {
            comps
        };
        for (c, cid, kind) in &comps {
            let want = self.m.matching(&[*c]);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut rows: Vec<(u64, usize)> = vec![];
                let cap = want.len() + 8;
                let mut q = open_dyn(&[DAcc::E, DAcc::R(*cid)], wr);
                q.rows(&mut |r| {
                    if let (Cell::Id(i), Cell::P(p)) = (r[0], r[1]) {
                        rows.push((i.as_u64(), p as usize));
                    }
                    rows.len() < cap
                });
                sut(|| drop(q));
                rows
            }));
            let rows = match r {
                Ok(r) => r,
                Err(p) => {
                    viol("panic", format!("querying component {c:#x} panicked: {}", payload(&*p)));
                    return;
                }
            };
            let mut got: Vec<u64> = rows.iter().map(|r| r.0).collect();
            got.sort();
            if got != want {
                viol("state", format!("component {c:#x} is found on {got:x?}, should be on {want:x?}"));
                return;
            }
            for (e, p) in rows {
                let v = self.m.ents[&e].comps[c];
                match kind.read(p as *const u8) {
                    Ok(x) if x == v => (),
                    other => {
                        viol("state", format!("component {c:#x} of {e:#x} is {other:?} instead of {v:?}"));
                        return;
                    }
                }
                self.tr.push(mix(e ^ v.pay));
                addr.insert((e, *c), p);
            }
        }
        // what is known about each id
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut rows: BTreeMap<(usize, usize), u64> = BTreeMap::new();
            let mut first: BTreeMap<usize, u64> = BTreeMap::new();
            let same = |a: u64, b: u64| self.m.ents[&a].comps.keys().eq(self.m.ents[&b].comps.keys());
            for (key, e) in &self.m.ents {
                let Some((l, arch, row)) = sut(|| wr.get_entity_meta(e.id).map(|m| (m.component_meta.layout, m.instance_meta.archetype.0, m.instance_meta.index))) else {
                    return Some(("state", format!("nothing is known about the live entity {key:#x}")));
                };
                if (l.size(), l.align()) != (e.kind.size(), e.kind.align()) {
                    return Some(("api", format!("as a component {key:#x} is {:?}, its layout is given as {l:?}", e.kind)));
                }
                if let Some(o) = rows.insert((arch, row), *key) {
                    return Some(("state", format!("{key:#x} and {o:#x} are said to be in the same place ({arch}, {row})")));
                }
                let o = *first.entry(arch).or_insert(*key);
                if !same(o, *key) {
                    return Some(("state", format!("{key:#x} and {o:#x} are said to be alike, but have different components")));
                }
            }
            let nd = self.m.dead.len();
            for id in self.m.dead.iter().take(2).chain(self.m.dead.iter().skip(nd.saturating_sub(6).max(2))) {
                if sut(|| wr.get_entity_meta(*id).is_some()) {
                    return Some(("id", format!("something is known about the dead entity {:#x}", id.as_u64())));
                }
            }
            None
        }));
        match r {
            Ok(None) => (),
            Ok(Some((c, m))) => {
                viol(c, m);
                return;
            }
            Err(p) => {
                viol("panic", format!("get_entity_meta panicked: {}", payload(&*p)));
                return;
            }
        }
        // the other ways to get at a cell
        let ents: Vec<EcsId> = self.m.ents.values().map(|e| e.id).collect();
        let types: Vec<(u8, EcsId)> = (0..NT as u8).filter_map(|k| Some((k, self.m.types[k as usize]?))).collect();
        for (i, &e) in ents.iter().enumerate() {
            for (j, (c, cid, kind)) in comps.iter().enumerate() {
                let has = self.m.has(e, *cid);
                if !has && mix((i * 64 + j) as u64 ^ self.n) % 3 != 0 {
                    continue;
                }
                match call(|| unsafe { (*w).get_component_mut_dynamic(e, *cid) }) {
                    Out::Ok(p) => {
                        if p.is_some() != has {
                            viol("state", format!("get_component_mut_dynamic({:#x}, {c:#x}) gives {}", e.as_u64(), if has { "nothing" } else { "something" }));
                        } else if has && kind.size() > 0 && p.map(|p| p as usize) != addr.get(&(e.as_u64(), *c)).copied() {
                            viol("api", format!("get_component_mut_dynamic({:#x}, {c:#x}) and the query name different places", e.as_u64()));
                        } else if has {
                            let v = self.m.ents[&e.as_u64()].comps[c];
                            if kind.read(p.unwrap()) != Ok(v) {
                                viol("state", format!("get_component_mut_dynamic({:#x}, {c:#x}) names a cell with another value", e.as_u64()));
                            }
                        }
                    }
                    Out::Panic(p) => viol("panic", format!("get_component_mut_dynamic panicked: {p}")),
                    _ => (),
                }
                if has_viol() {
                    return;
                }
            }
        }
        for k in 0..NT as u8 {
            let cid = types.iter().find(|t| t.0 == k).map(|t| t.1);
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut q = open(STATIC_ER[k as usize], wr);
                let mut bad: Option<String> = None;
                for e in ents.iter().chain(self.m.dead.iter().rev().take(4)) {
                    let has = cid.is_some_and(|c| self.m.has(*e, c));
                    if sut(|| with_k!(k, T => wr.has_component::<T>(*e))) != has {
                        bad = Some(format!("has_component::<{}>({:#x}) is wrong (should be {has})", NAMES[k as usize], e.as_u64()));
                        break;
                    }
                    let g = q.get(*e);
                    if g.is_some() != has {
                        bad = Some(format!("typed lookup of {} on {:#x} should {}", NAMES[k as usize], e.as_u64(), if has { "succeed" } else { "fail" }));
                        break;
                    }
                    if let Some(g) = g {
                        if let (Cell::Id(i), Cell::P(p)) = (g[0], g[1]) {
                            if i != *e {
                                bad = Some("typed lookup returned another entity's row".into());
                            }
                            let a = addr.get(&(e.as_u64(), cid.unwrap().as_u64())).copied();
                            if CKind::T(k).size() > 0 && Some(p as usize) != a && !(sampled && a.is_none()) {
                                bad = Some(format!("typed and dynamic access to {} of {:#x} name different places", NAMES[k as usize], e.as_u64()));
                            }
                        }
                    }
                }
                sut(|| drop(q));
                bad
            }));
            match r {
                Ok(None) => (),
                Ok(Some(b)) => {
                    viol("api", b);
                    return;
                }
                Err(p) => {
                    viol("panic", format!("typed access to {} panicked: {}", NAMES[k as usize], payload(&*p)));
                    return;
                }
            }
        }
        // the dead stay dead
        let nd = self.m.dead.len();
        for i in 0..nd.min(6) {
            let id = if i < 3 { self.m.dead[nd - 1 - i.min(nd - 1)] } else { self.m.dead[(mix(self.n * 8 + i as u64) % nd as u64) as usize] };
            match call(|| unsafe { (*w).is_alive(id) }) {
                Out::Ok(true) => viol("id", format!("the dead entity {:#x} is reported alive", id.as_u64())),
                Out::Panic(p) => viol("panic", format!("is_alive panicked: {p}")),
                _ => (),
            }
            if let Some((c, cid, _)) = comps.first() {
                match call(|| unsafe { (*w).get_component_mut_dynamic(id, *cid) }) {
                    Out::Ok(Some(_)) => viol("id", format!("the dead entity {:#x} gave access to component {c:#x}", id.as_u64())),
                    Out::Panic(p) => viol("panic", format!("get_component_mut_dynamic panicked: {p}")),
                    _ => (),
                }
            }
            // as a component it matches nothing
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut n = 0;
                let mut q = open_dyn(&[DAcc::E, DAcc::R(id)], wr);
                q.rows(&mut |_| {
                    n += 1;
                    n < 2
                });
                sut(|| drop(q));
                n
            }));
            match r {
                Ok(0) => (),
                Ok(_) => viol("id", format!("a query for the dead id {:#x} as a component yields rows", id.as_u64())),
                Err(p) => viol("panic", format!("a query for a dead component panicked: {}", payload(&*p))),
            }
        }
        self.check_drops(Drops::default(), "looking", false);
        poll_alloc();
    }

    // ---- the end ----
    /// dp: the n-th destructor call panics
    fn finish(&mut self, dp: u32) {
        alloc::disarm_failure();
        alloc::clear_failure();
        reg().panic_in = 0;
        reg().panicked = false;
        if has_viol() {
            // Whatever is broken, do not run its destructors
            std::mem::forget(self.w.take());
            return;
        }
        let Some(w) = self.w.take() else { return };
        let p = Box::into_raw(w);
        reg().panic_in = dp;
        let out = call(|| unsafe { std::ptr::drop_in_place(p) });
        let panicked = std::mem::take(&mut reg().panicked);
        reg().panic_in = 0;
        unsafe { std::alloc::dealloc(p as *mut u8, std::alloc::Layout::new::<World>()) };
        if panicked {
            self.lossy = true;
            count("run.dropped_with_a_panic", 1);
        }
        match out {
            Out::Injected if panicked => (),
            _ if panicked => viol("dtor-panic", "dropping the world: a destructor's panic did not reach the caller".into()),
            Out::Ok(()) => (),
            Out::Panic(p) => viol("panic", format!("dropping the world panicked: {p}")),
            _ => viol("panic", "dropping the world unwound".into()),
        }
        if has_viol() {
            return;
        }
        let want = self.m.all_drops();
        if self.oom {
            reg().log.clear();
            reg().zlog = [0; NT];
            return;
        }
        self.check_drops(want, "dropping the world", panicked);
    }
}

/// The run is over, and the thread it was on has ended: what was held per thread is gone as well
pub fn after_run(res: &RunResult) {
    if !res.oom && !has_viol() {
        if res.vectors {
            let (n, b) = alloc::live();
            if n != 0 {
                viol("mem-leak", format!("{n} allocations ({b} bytes) are still held after the vectors were dropped"));
            }
        } else {
            all_gone(res.lossy);
        }
    }
    reg().active = false;
    alloc::end_run();
    poll_alloc();
}

/// Every world has been dropped
fn all_gone(lossy: bool) {
    let r = reg();
    for (i, x) in r.insts.iter().enumerate() {
        if x.st == crate::values::St::Live && !x.may_leak {
            viol("drop-missing", format!("value #{i} ({}) was never dropped", NAMES[x.kind as usize]));
            break;
        }
    }
    for k in 0..NT {
        if ZDROP[k] && r.zcreated[k] - r.zdropped[k] > r.zslack[k] {
            viol("drop-missing", format!("{} zero-sized {} were never dropped", r.zcreated[k] - r.zdropped[k], NAMES[k]));
        }
    }
    let (n, bytes) = alloc::live();
    if n != 0 && !lossy {
        viol("mem-leak", format!("{n} allocations ({bytes} bytes) are still held after the world was dropped"));
    }
}
