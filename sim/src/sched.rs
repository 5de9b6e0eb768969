//! The scheduler: real threads, one of which holds the baton at any time. It decides who runs at every
//! lock acquisition, lock release and yield point, and it owns the lock table.
use crate::report::viol;
use crate::rng::Rng;
use crate::values::SimAbort;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::{Condvar, Mutex, MutexGuard};

pub const MAXT: usize = 12;

#[derive(Clone, Debug, PartialEq)]
pub enum Strategy {
    /// any runnable thread, at every point
    Uniform(u64),
    /// stay with probability (n-1)/n
    Sticky(u64, u32),
    /// random priorities, lowered at d random steps
    Pct(u64, u32),
    /// stay while possible, else the lowest; except at the listed steps
    Explicit(Vec<(u32, u8)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize, bool),
    /// waits in the kernel until the word at this address has another value
    Futex(usize, u32),
    Done,
}

#[derive(Default)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
}

struct State {
    active: bool,
    cur: usize,
    st: Vec<St>,
    locks: BTreeMap<usize, Lock>,
    writer_pref: bool,
    strategy: Strategy,
    rng: Rng,
    prio: Vec<u64>,
    change: Vec<u32>,
    steps: u32,
    next_explicit: usize,
    log: Vec<(u32, u8)>,
    trace: u64,
    abort: bool,
    switches: u64,
    /// preemption inside library code: rng, mean distance in edges, how many more times
    pre: Rng,
    pre_mean: u64,
    pre_left: u32,
    pre_next: bool,
    preempted: u64,
    /// a thread shares a component once more while others want to write it: some locks let that wait for ever
    risk: bool,
    /// ended without an answer
    gave_up: bool,
    /// rounds of threads that wait in the kernel although everything is being given up
    stuck: u32,
}

static S: Mutex<Option<State>> = Mutex::new(None);
static CV: [Condvar; MAXT] = [const { Condvar::new() }; MAXT];
thread_local! {
    static TID: Cell<usize> = const { Cell::new(0) };
}

pub fn tid() -> usize {
    TID.with(|t| t.get())
}
pub fn set_tid(t: usize) {
    TID.with(|c| c.set(t))
}

fn lock() -> MutexGuard<'static, Option<State>> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

/// Called when a thread has to wait: is there a reason? (thread)
pub static WAIT_CHECK: Mutex<Option<fn(usize)>> = Mutex::new(None);

pub const STEP_CAP: u32 = 60_000;
/// How often one phase preempts threads inside library code
const PRE_MAX: u32 = 64;
/// A thread that passes so many edges without a scheduling point may be spinning: somebody else's turn
const SPIN: u64 = 300_000;

fn fresh() -> State {
    State {
        active: false,
        cur: 0,
        st: vec![St::Ready],
        locks: BTreeMap::new(),
        writer_pref: false,
        strategy: Strategy::Explicit(vec![]),
        rng: Rng::new(0),
        prio: vec![],
        change: vec![],
        steps: 0,
        next_explicit: 0,
        log: vec![],
        trace: 0,
        abort: false,
        switches: 0,
        pre: Rng::new(0),
        pre_mean: 0,
        pre_left: 0,
        pre_next: false,
        preempted: 0,
        risk: false,
        gave_up: false,
        stuck: 0,
    }
}

/// Between runs
pub fn reset() {
    *lock() = Some(fresh());
}

/// `pre`: 0, or preempt inside library code, every (pre % 65536) edges on average, seeded with pre.
pub fn begin(n: usize, strategy: Strategy, writer_pref: bool, pre: u64) {
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let held: Vec<usize> = s.locks.iter().filter(|(_, l)| l.writer.is_some() || !l.readers.is_empty()).map(|(a, _)| *a).collect();
    assert!(held.is_empty(), "harness: a lock is held when a parallel phase begins");
    *s = fresh();
    s.active = true;
    s.cur = 0;
    s.st = vec![St::Ready; n];
    s.writer_pref = writer_pref;
    match &strategy {
        Strategy::Uniform(x) | Strategy::Sticky(x, _) => s.rng = Rng::new(*x),
        Strategy::Pct(x, d) => {
            s.rng = Rng::new(*x);
            s.prio = (0..n).map(|_| s.rng.next() | 1 << 63).collect();
            let horizon = 20 * n as u64 + 40 + if pre > 0 { 60 } else { 0 };
            s.change = (0..*d).map(|_| s.rng.below(horizon) as u32).collect();
        }
        Strategy::Explicit(_) => (),
    }
    s.strategy = strategy;
    s.pre = Rng::new(pre);
    s.pre_mean = pre & 0xFFFF;
    s.pre_left = if s.pre_mean > 0 { PRE_MAX } else { 0 };
    ellbase::hook::arm(edge, gap(s));
    let first = pick(s, usize::MAX);
    s.cur = first.unwrap_or(0);
}

/// Edges until the next preemption
fn gap(s: &mut State) -> u64 {
    s.pre_next = s.pre_left > 0;
    if s.pre_left == 0 {
        return SPIN;
    }
    s.pre_left -= 1;
    1 + s.pre.below(2 * s.pre_mean)
}

pub struct Outcome {
    pub edges: u64,
    pub preempted: u64,
    pub log: Vec<(u32, u8)>,
    pub steps: u32,
    pub trace: u64,
    pub switches: u64,
    pub gave_up: bool,
}

pub fn end() -> Outcome {
    let edges = ellbase::hook::disarm();
    let mut g = lock();
    let s = g.as_mut().unwrap();
    let o = Outcome { edges, preempted: s.preempted, log: std::mem::take(&mut s.log), steps: s.steps, trace: s.trace, switches: s.switches, gave_up: s.gave_up };
    for l in s.locks.values() {
        if (l.writer.is_some() || !l.readers.is_empty()) && !s.abort {
            viol("excl", "a component's lock is still held after every query ended".into());
        }
    }
    *s = fresh();
    o
}

fn grantable(s: &State, addr: usize, write: bool, me: usize) -> bool {
    let others_waiting_to_write = s
        .st
        .iter()
        .enumerate()
        .any(|(t, st)| t != me && matches!(st, St::Blocked(a, true) if *a == addr));
    match s.locks.get(&addr) {
        None => true,
        Some(l) => {
            if write {
                l.writer.is_none() && l.readers.is_empty()
            } else {
                l.writer.is_none() && !(s.writer_pref && others_waiting_to_write && !l.readers.is_empty())
            }
        }
    }
}

fn runnable(s: &State) -> Vec<usize> {
    (0..s.st.len())
        .filter(|&t| match s.st[t] {
            St::Ready => true,
            St::Blocked(a, w) => s.abort || grantable(s, a, w, t),
            // (the word belongs to a thread that waits on it)
            St::Futex(a, v) => s.abort || unsafe { (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) } != v,
            St::Done => false,
        })
        .collect()
}

/// Who runs next. `me` is the thread that gives up the baton (usize::MAX: none).
fn pick(s: &mut State, me: usize) -> Option<usize> {
    pick_how(s, me, Why::Point)
}
#[derive(PartialEq, Clone, Copy)]
enum Why {
    /// an ordinary scheduling point
    Point,
    /// preempted inside library code
    Preempted,
    /// may be spinning
    Spins,
}
fn pick_how(s: &mut State, me: usize, why: Why) -> Option<usize> {
    let run = runnable(s);
    if run.is_empty() {
        return None;
    }
    s.steps += 1;
    let dflt = match why {
        Why::Spins => *run.iter().find(|t| **t > me).unwrap_or(&run[0]),
        _ if run.contains(&me) => me,
        _ => run[0],
    };
    let step = s.steps;
    if why == Why::Preempted && run.contains(&me) {
        if let Strategy::Pct(..) = s.strategy {
            // the preempted thread falls behind, for good or not
            if s.rng.chance(1, 2) {
                s.prio[me] = s.rng.next() >> if s.rng.chance(1, 2) { 2 } else { 0 };
            }
        }
    }
    let c = match s.strategy.clone() {
        _ if s.abort || why == Why::Spins => dflt,
        Strategy::Uniform(_) => *s.rng.pick(&run),
        Strategy::Sticky(_, n) => {
            if run.contains(&me) && !s.rng.chance(1, n as u64) {
                me
            } else {
                *s.rng.pick(&run)
            }
        }
        Strategy::Pct(_, _) => {
            let best = *run.iter().max_by_key(|&&t| s.prio[t]).unwrap();
            if s.change.contains(&step) {
                s.prio[best] = s.change.len() as u64 - s.change.iter().position(|&x| x == step).unwrap() as u64;
            }
            *run.iter().max_by_key(|&&t| s.prio[t]).unwrap()
        }
        Strategy::Explicit(v) => {
            while s.next_explicit < v.len() && v[s.next_explicit].0 < step {
                s.next_explicit += 1;
            }
            match v.get(s.next_explicit) {
                Some(&(at, t)) if at == step && run.contains(&(t as usize)) => t as usize,
                _ => dflt,
            }
        }
    };
    if c != dflt {
        s.log.push((step, c as u8));
    }
    s.trace = crate::rng::mix(s.trace ^ (c as u64 + 1));
    if c != me {
        s.switches += 1;
    }
    Some(c)
}

fn hand_over(mut g: MutexGuard<'static, Option<State>>, me: usize, to: usize) -> MutexGuard<'static, Option<State>> {
    g.as_mut().unwrap().cur = to;
    if to != me {
        CV[to].notify_one();
        while g.as_ref().unwrap().cur != me {
            g = CV[me].wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    g
}

/// A point at which another thread may run.
pub fn yield_now() {
    let me = tid();
    let was = crate::alloc::leave_sut();
    let mut g = lock();
    let s = g.as_mut().unwrap();
    if s.active {
        if s.steps > STEP_CAP && !s.abort {
            s.abort = true;
            viol("hang", "the threads did not come to an end".into());
        }
        if s.abort {
            drop(g);
            if !std::thread::panicking() {
                std::panic::panic_any(SimAbort);
            }
            crate::alloc::enter_sut(was);
            return;
        }
        if let Some(n) = pick(s, me) {
            g = hand_over(g, me, n);
        }
        let ab = g.as_ref().unwrap().abort;
        drop(g);
        if ab && !std::thread::panicking() {
            std::panic::panic_any(SimAbort);
        }
    }
    crate::alloc::enter_sut(was);
}

/// Called from inside library code (see ellhook): somebody else may run. Never unwinds.
fn edge() {
    let me = tid();
    let was = crate::alloc::leave_sut();
    {
        let mut g = lock();
        if let Some(s) = g.as_mut() {
            if s.active && !s.abort && s.steps <= STEP_CAP {
                let why = if s.pre_next { Why::Preempted } else { Why::Spins };
                let next = pick_how(s, me, why);
                s.preempted += 1;
                ellbase::hook::again(gap(s));
                if let Some(n) = next {
                    g = hand_over(g, me, n);
                }
            } else {
                ellbase::hook::again(SPIN);
            }
        }
        drop(g);
    }
    crate::alloc::enter_sut(was);
}

/// The library waits in the kernel (a Mutex of its own, say): false if nothing is simulated now.
pub fn futex_wait(addr: usize, val: u32, timed: bool) -> Option<bool> {
    let me = tid();
    let was = crate::alloc::leave_sut();
    let busy = ellbase::hook::set_busy(true);
    let mut g = lock();
    let mut out = None;
    if let Some(s) = g.as_mut().filter(|s| s.active) {
        crate::report::count("sched.kernel_waits", 1);
        if s.abort || s.steps > STEP_CAP {
            s.abort = true;
            s.stuck += 1;
            if s.stuck > 1000 {
                eprintln!("ellsim: a thread waits for ever inside the library");
                std::process::abort();
            }
        }
        s.st[me] = if timed { St::Ready } else { St::Futex(addr, val) };
        let next = match pick_how(s, me, Why::Spins) {
            Some(n) => n,
            None => {
                deadlock(s);
                pick(s, me).unwrap()
            }
        };
        g = hand_over(g, me, next);
        g.as_mut().unwrap().st[me] = St::Ready;
        out = Some(timed);
    }
    drop(g);
    ellbase::hook::set_busy(busy);
    crate::alloc::enter_sut(was);
    out
}

/// A simulated thread waits for its first turn.
pub fn start_turn() {
    let me = tid();
    let mut g = lock();
    while g.as_ref().unwrap().cur != me {
        g = CV[me].wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

struct AtExit;
impl Drop for AtExit {
    fn drop(&mut self) {
        finish();
    }
}
thread_local! {
    static AT_EXIT: std::cell::Cell<Option<AtExit>> = const { std::cell::Cell::new(None) };
}
/// The thread hands the baton over when it ends, after what the library keeps per thread is gone: destructors of
/// thread-locals run in reverse order, and this one comes first.
pub fn finish_at_exit() {
    AT_EXIT.set(Some(AtExit));
}

/// A simulated thread is finished (its results must be stored by now).
fn finish() {
    let me = tid();
    let mut g = lock();
    let s = g.as_mut().unwrap();
    s.st[me] = St::Done;
    let next = match pick(s, me) {
        Some(n) => Some(n),
        None if s.st.iter().any(|x| matches!(x, St::Blocked(..) | St::Futex(..))) => {
            deadlock(s);
            pick(s, me)
        }
        None => None,
    };
    if let Some(n) = next {
        s.cur = n;
        CV[n].notify_one();
    } else {
        s.cur = usize::MAX;
    }
}

fn deadlock(s: &mut State) {
    s.abort = true;
    if s.risk && s.st.iter().any(|x| matches!(x, St::Futex(..))) {
        // a lock of the library's own, which prefers who waits to write
        s.gave_up = true;
        return;
    }
    let names: Vec<usize> = s.locks.keys().copied().collect();
    let mut m = String::from("no thread can proceed:");
    for (t, st) in s.st.iter().enumerate() {
        if let St::Futex(..) = st {
            m += &format!(" thread {t} waits in the kernel;");
        }
        if let St::Blocked(a, w) = st {
            let l = &s.locks[a];
            m += &format!(
                " thread {t} waits to {} component-lock {} held by {:?};",
                if *w { "write" } else { "read" },
                names.iter().position(|x| x == a).unwrap_or(0),
                l.writer.map(|x| vec![x]).unwrap_or_else(|| l.readers.clone())
            );
        }
    }
    viol("deadlock", m);
}

pub fn at_own_risk() {
    if let Some(s) = lock().as_mut() {
        s.risk = true;
    }
}

pub fn aborting() -> bool {
    lock().as_ref().is_some_and(|s| s.abort)
}

pub struct Sim;
pub static SIM: Sim = Sim;

#[cfg(ellecs_sim)]
impl arche_tape::sim::LockSim for Sim {
    fn acquire(&self, addr: usize, write: bool) {
        acquire(addr, write)
    }
    fn try_acquire(&self, addr: usize, write: bool) -> bool {
        yield_now();
        let was = crate::alloc::leave_sut();
        let mut granted = true;
        if let Some(s) = lock().as_mut() {
            granted = grantable(s, addr, write, tid());
            if granted {
                take(s, addr, write, tid());
            }
        }
        crate::alloc::enter_sut(was);
        granted
    }
    fn release(&self, addr: usize, write: bool) {
        release(addr, write)
    }
}

#[allow(dead_code)]
fn take(s: &mut State, addr: usize, write: bool, me: usize) {
    let l = s.locks.entry(addr).or_default();
    if write {
        l.writer = Some(me);
    } else {
        l.readers.push(me);
    }
}

#[allow(dead_code)]
fn acquire(addr: usize, write: bool) {
    yield_now();
    let me = tid();
    let was = crate::alloc::leave_sut();
    let mut g = lock();
    let Some(s) = g.as_mut() else { return };
    if !s.active {
        if !grantable(s, addr, write, me) {
            drop(g);
            viol("hang", "a query waits for a lock that the same thread holds".into());
            std::panic::panic_any(SimAbort);
        }
        take(s, addr, write, me);
        drop(g);
        crate::alloc::enter_sut(was);
        return;
    }
    if !grantable(s, addr, write, me) {
        crate::report::count("sched.lock_waits", 1);
        s.st[me] = St::Blocked(addr, write);
        let f = *WAIT_CHECK.lock().unwrap();
        if let Some(f) = f {
            f(me);
        }
        let next = match pick(s, me) {
            Some(n) => n,
            None => {
                deadlock(s);
                pick(s, me).unwrap()
            }
        };
        g = hand_over(g, me, next);
        let s = g.as_mut().unwrap();
        s.st[me] = St::Ready;
        if s.abort {
            drop(g);
            std::panic::panic_any(SimAbort);
        }
        take(s, addr, write, me);
    } else {
        take(s, addr, write, me);
    }
    drop(g);
    crate::alloc::enter_sut(was);
}

#[allow(dead_code)]
fn release(addr: usize, write: bool) {
    let me = tid();
    let was = crate::alloc::leave_sut();
    {
        let mut g = lock();
        if let Some(s) = g.as_mut() {
            let mut gone = false;
            if let Some(l) = s.locks.get_mut(&addr) {
                if write {
                    l.writer = None;
                } else if let Some(i) = l.readers.iter().position(|&t| t == me) {
                    l.readers.swap_remove(i);
                } else {
                    l.readers.pop();
                }
                gone = l.writer.is_none() && l.readers.is_empty();
            }
            if gone {
                s.locks.remove(&addr);
            }
        }
    }
    if !aborting() {
        yield_now();
    }
    crate::alloc::enter_sut(was);
}
