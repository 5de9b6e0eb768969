//! The processes that execute runs.
use crate::plan::Plan;
use crate::report;
use crate::runner::{decisive, run_case};
use crate::{alloc, gen};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{SystemTime, UNIX_EPOCH};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

/// Counters shared by supervisor and workers: [0] no run from here on matters, [1 + w] index of the run
/// worker w is at, plus one.
pub struct Shared(&'static [AtomicU64]);
impl Shared {
    pub fn open(dir: &str, create: bool) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(create).truncate(false).open(format!("{dir}/shared")).expect("shared file");
        f.set_len(4096).expect("shared file");
        let p = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 1, f.as_raw_fd(), 0) };
        assert!(p as isize != -1, "cannot map the shared file");
        Shared(unsafe { std::slice::from_raw_parts(p as *const AtomicU64, 64) })
    }
    pub fn stop_at(&self) -> u64 {
        self.0[0].load(Relaxed)
    }
    pub fn set_stop_at(&self, v: u64) {
        self.0[0].fetch_min(v, Relaxed);
    }
    pub fn init(&self) {
        self.0[0].store(u64::MAX, Relaxed);
    }
    pub fn at(&self, w: usize) -> u64 {
        self.0[1 + w].load(Relaxed)
    }
    pub fn set_at(&self, w: usize, v: u64) {
        self.0[1 + w].store(v, Relaxed);
    }
}

pub fn now_ms() -> u64 {
    SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(0)
}

pub fn one_line(s: &str) -> String {
    s.replace(['\n', '\r', '\t'], " ")
}

fn out(line: String) {
    let mut o = std::io::stdout().lock();
    let _ = o.write_all(line.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}

/// A little of everything, outside the simulation: what the library keeps for the whole process (and not per world
/// or thread) is set up with memory that no run takes back.
pub fn warm_up() {
    use arche_tape::{spawn, World};
    crate::sched::reset();
    let t = std::thread::Builder::new().spawn(|| {
        let r = std::panic::catch_unwind(|| {
            for _ in 0..2 {
                let mut w = World::new();
                let a = spawn!(&mut w, 1_u32, 2_u64);
                let tag = w.spawn().build();
                let b = w.spawn().with(3_u32).with_dynamic(tag).build();
                w.add_component::<u16>(a, 4);
                w.add_component_dynamic(a, tag);
                w.query::<(arche_tape::EcsIds, &'static u32, &'static mut u64)>().iter().for_each(drop);
                w.query::<(&'static u32,)>().iter().for_each(drop);
                w.remove_component::<u16>(a);
                w.despawn(b);
                let _ = w.spawn().with(5_u8);
                w.despawn(tag);
                w.spawn().with(6_u8).build();
            }
        });
        if r.is_ok() {
            report::count("run.process_warmed_up", 1);
        }
    });
    let _ = t.expect("cannot start a thread").join();
}

#[allow(clippy::too_many_arguments)]
pub fn worker(prop: &str, master: u64, start: u64, stride: u64, count: u64, deadline: u64, dir: &str, w: usize) {
    let sh = Shared::open(dir, false);
    report::set_decisive(&decisive(prop));
    let (mut runs, mut execs, mut steps, mut items, mut nontrivial) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let (mut cases, mut states, mut traces): (Vec<u64>, Vec<u64>, Vec<u64>) = (vec![], vec![], vec![]);
    let mut samples = 0;
    let mut idx = start;
    sh.set_at(w, idx + 1);
    warm_up();
    while idx < count && idx < sh.stop_at() && now_ms() < deadline {
        sh.set_at(w, idx + 1);
        report::CURRENT.store(idx, Relaxed);
        let plan = gen::generate(prop, gen::seed_of(master, prop, idx));
        let c = run_case(&plan);
        runs += 1;
        execs += c.executions;
        steps += c.res.steps;
        items += c.res.items_done;
        if c.nontrivial {
            nontrivial += 1;
            cases.push(c.digest);
            if samples < 2 && plan.items.len() < 25 {
                samples += 1;
                out(format!("P {idx} {}", plan.text().replace('\n', "\\n")));
            }
        }
        states.extend(&c.res.states);
        traces.extend(&c.res.traces);
        for v in [&mut cases, &mut states, &mut traces] {
            if v.len() > 1 << 20 {
                v.sort_unstable();
                v.dedup();
            }
        }
        if idx < 8 * stride {
            out(format!("D {idx} {:x}", c.digest));
        }
        if let Some((cl, m)) = c.viol {
            out(format!("V {idx} {cl}\t{}", one_line(&m)));
            sh.set_stop_at(idx);
            break;
        }
        idx += stride;
    }
    sh.set_at(w, 0);
    for (name, v) in [("cases", &mut cases), ("states", &mut states), ("traces", &mut traces)] {
        v.sort_unstable();
        v.dedup();
        let b: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        let _ = std::fs::write(format!("{dir}/{name}.{w}"), b);
    }
    for (k, n) in report::counts() {
        out(format!("C {k} {n}"));
    }
    for (k, n, m) in report::take_notes() {
        out(format!("N {k} {n}\t{}", one_line(&m)));
    }
    let t = alloc::totals();
    for (k, n) in [
        ("alloc.requests", t[0]),
        ("alloc.moved_on_growth", t[1]),
        ("alloc.grown_in_place", t[2]),
        ("alloc.minimally_aligned", t[3]),
        ("alloc.guard_page_blocks", t[4]),
        ("entropy.requests", alloc::entropy_asked()),
    ] {
        out(format!("C {k} {n}"));
    }
    out(format!("S {runs} {execs} {steps} {items} {nontrivial}"));
}

/// Run what a file says, in this process. 0: nothing wrong, 1: violation.
pub fn exec(file: &str) -> i32 {
    warm_up();
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {file}: {e}");
            return 2;
        }
    };
    if let Some(l) = text.lines().find(|l| l.starts_with("sequence ")) {
        // prop seed start stride end
        let f: Vec<&str> = l.split_whitespace().collect();
        let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        let prop = f.get(1).copied().unwrap_or("");
        report::set_decisive(&decisive(prop));
        let mut i = n(3);
        while i <= n(5) {
            report::CURRENT.store(i, Relaxed);
            let c = run_case(&gen::generate(prop, gen::seed_of(n(2), prop, i)));
            if let Some((cl, m)) = c.viol {
                out(format!("V {i} {cl}\t{}", one_line(&m)));
                return 1;
            }
            i += n(4).max(1);
        }
        return 0;
    }
    let plan = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("cannot understand {file}: {e}");
            return 2;
        }
    };
    report::set_decisive(&decisive(&plan.prop));
    let c = run_case(&plan);
    let sch: Vec<String> =
        c.res.schedules.iter().map(|v| v.iter().map(|(s, t)| format!("{s}@{t}")).collect::<Vec<_>>().join(",")).collect();
    out(format!("X {}", sch.join(";")));
    out(format!("D 0 {:x}", c.digest));
    match c.viol {
        Some((cl, m)) => {
            out(format!("V 0 {cl}\t{}", one_line(&m)));
            1
        }
        None => 0,
    }
}

pub fn digest(prop: &str, master: u64, idx: &[u64]) {
    warm_up();
    report::set_decisive(&decisive(prop));
    for &i in idx {
        report::CURRENT.store(i, Relaxed);
        let c = run_case(&gen::generate(prop, gen::seed_of(master, prop, i)));
        out(format!("D {i} {:x}", c.digest));
        if let Some((cl, m)) = c.viol {
            out(format!("V {i} {cl}\t{}", one_line(&m)));
            return;
        }
    }
}
