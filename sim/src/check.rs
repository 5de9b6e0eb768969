//! The supervisor: spreads runs over worker processes, turns deaths and hangs into violations, minimises,
//! writes the replay file and the evidence.
use crate::minimise::Min;
use crate::plan::Plan;
use crate::runner::{feature, PROPS};
use crate::worker::{now_ms, one_line, Shared};
use crate::{gen, rng::mix};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

fn me() -> std::path::PathBuf {
    std::env::current_exe().expect("own path")
}

/// Runs per tier; a run takes between a tenth of a millisecond and a few milliseconds
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick: u64 = match prop {
        "C06" | "C07" | "C08" => 64_000,
        "C15" => 16_000,
        "C03" => 64_000,
        "C05" => 64_000,
        "C13" => 160_000,
        _ => 64_000,
    };
    // (runs, seconds)
    match tier {
        "thorough" => (quick * 40, 600),
        _ => (quick, 120),
    }
}
const HANG_MS: u64 = 30_000;

/// Processor time a process has used, in milliseconds
fn cpu_ms(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let mut f = s.rsplit_once(')')?.1.split_whitespace().skip(11);
    let u: u64 = f.next()?.parse().ok()?;
    let k: u64 = f.next()?.parse().ok()?;
    Some((u + k) * 10)
}

/// Decides that a run hangs by what it did, not by the time a loaded machine took: it has either used
/// nearly that much processor time, or next to none in twice that time.
#[derive(Clone, Copy)]
struct Watch {
    since: Instant,
    cpu: u64,
}
impl Watch {
    fn new(pid: u32) -> Self {
        Watch { since: Instant::now(), cpu: cpu_ms(pid).unwrap_or(0) }
    }
    fn hung(&self, pid: u32, ms: u64) -> bool {
        let e = self.since.elapsed().as_millis() as u64;
        if e <= ms {
            return false;
        }
        let Some(c) = cpu_ms(pid) else { return false };
        let used = c.saturating_sub(self.cpu);
        used > ms / 6 * 5 || e > 2 * ms && used < ms / 60 || e > 5 * ms
    }
}

pub enum Ran {
    Fine,
    /// class, message, explicit schedules
    Viol(String, String, Vec<Vec<(u32, u8)>>),
    Error(String),
}

fn parse_v(l: &str) -> Option<(u64, String, String)> {
    let r = l.strip_prefix("V ")?;
    let (i, r) = r.split_once(' ')?;
    let (c, m) = r.split_once('\t').unwrap_or((r, ""));
    Some((i.parse().ok()?, c.to_string(), m.to_string()))
}

/// Run a file in a process of its own.
fn exec_file(path: &str, timeout_ms: u64) -> (Ran, Option<String>) {
    let mut ch = match Command::new(me()).args(["exec", path]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (Ran::Error(e.to_string()), None),
    };
    let mut so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        let _ = tx.send(s);
    });
    let watch = Watch { since: Instant::now(), cpu: 0 };
    let mut pause = 200;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if watch.hung(ch.id(), timeout_ms) => {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            _ => {
                std::thread::sleep(Duration::from_micros(pause));
                pause = (pause * 2).min(5000);
            }
        }
    };
    let text = rx.recv_timeout(Duration::from_secs(5)).unwrap_or_default();
    let mut sch = vec![];
    let mut digest = None;
    let mut v = None;
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("X ") {
            sch = x
                .split(';')
                .map(|p| p.split(',').filter_map(|q| q.split_once('@')).filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))).collect())
                .collect();
        } else if l.starts_with("D 0 ") {
            digest = Some(l[4..].to_string());
        } else if let Some(x) = parse_v(l) {
            v = Some((x.1, x.2));
        }
    }
    if let Some((c, m)) = v {
        return (Ran::Viol(c, m, sch), digest);
    }
    match status {
        None => (Ran::Viol("hang".into(), format!("a run did not end within {} s", timeout_ms / 1000), vec![]), None),
        Some(s) if s.code() == Some(0) => (Ran::Fine, digest),
        Some(s) if s.code() == Some(2) => (Ran::Error("exec refused the file".into()), None),
        Some(s) => (Ran::Viol("crash".into(), died(s), vec![]), None),
    }
}

fn died(s: std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match s.signal() {
        Some(6) => "the process was aborted (signal 6)".into(),
        Some(11) => "the process accessed memory it must not (signal 11)".into(),
        Some(n) => format!("the process was killed by signal {n}"),
        None => format!("the process ended with code {:?}", s.code()),
    }
}

pub fn exec_plan(dir: &str, p: &Plan, timeout_ms: u64) -> Ran {
    let path = format!("{dir}/try.plan");
    if let Err(e) = std::fs::write(&path, p.text()) {
        return Ran::Error(e.to_string());
    }
    let (r, d) = exec_file(&path, timeout_ms);
    if p.prop == "C15" && matches!(r, Ran::Fine) {
        // other processes: other addresses of code, stack and world
        for _ in 0..3 {
            if let (Ran::Fine, d2) = exec_file(&path, timeout_ms) {
                if d2 != d {
                    return Ran::Viol("diverge".into(), "the same history gives another result in another process".into(), vec![]);
                }
            }
        }
    }
    r
}

struct Worker {
    ch: Child,
    w: usize,
    start: u64,
    done: bool,
}

#[derive(Default)]
struct Tally {
    runs: u64,
    execs: u64,
    steps: u64,
    items: u64,
    nontrivial: u64,
    counts: BTreeMap<String, u64>,
    notes: BTreeMap<String, (u64, String)>,
    samples: BTreeMap<u64, String>,
    digests: BTreeMap<u64, String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn merged(dir: &str, name: &str, n: usize) -> u64 {
    let mut v: Vec<u64> = vec![];
    for w in 0..n {
        if let Ok(b) = std::fs::read(format!("{dir}/{name}.{w}")) {
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    v.sort_unstable();
    v.dedup();
    v.len() as u64
}

pub fn check(prop: &str, tier: &str, seed: u64, verif: &str) -> i32 {
    if !PROPS.contains(&prop) {
        eprintln!("no such property: {prop}");
        return 2;
    }
    if cfg!(not(ellecs_sim)) && matches!(prop, "C06" | "C07" | "C08") {
        eprintln!("built without --cfg ellecs_sim: schedules cannot be controlled");
        return 2;
    }
    let t0 = Instant::now();
    let dir = format!("{}/ellsim.{}", std::env::temp_dir().display(), std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let r = check_in(prop, tier, seed, verif, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn check_in(prop: &str, tier: &str, seed: u64, verif: &str, dir: &str, t0: Instant) -> i32 {
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let (mut count, mut secs) = budget(prop, tier);
    count = env("ELLSIM_RUNS").unwrap_or(count);
    secs = env("ELLSIM_SECONDS").unwrap_or(secs);
    let nw = env("ELLSIM_WORKERS").unwrap_or(8).clamp(1, 32) as usize;
    let master = mix(seed);
    let sh = Shared::open(dir, true);
    sh.init();
    let deadline = now_ms() + secs * 1000;
    let (tx, rx) = mpsc::channel::<(usize, String)>();
    let mut ws: Vec<Worker> = vec![];
    for w in 0..nw {
        let mut ch = Command::new(me())
            .args(["worker", prop, &master.to_string(), &w.to_string(), &nw.to_string(), &count.to_string(), &deadline.to_string(), dir, &w.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("cannot start a worker");
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                if tx.send((w, l)).is_err() {
                    break;
                }
            }
        });
        ws.push(Worker { ch, w, start: w as u64, done: false });
    }
    drop(tx);
    let search0 = Instant::now();
    let mut t = Tally::default();
    // (index, class, message, worker)
    let mut found: Option<(u64, String, String, usize)> = None;
    let mut note = |f: &mut Option<(u64, String, String, usize)>, i: u64, c: String, m: String, w: usize| {
        sh.set_stop_at(i);
        if f.as_ref().map_or(true, |x| i < x.0) {
            *f = Some((i, c, m, w));
        }
    };
    let mut last: Vec<(u64, Watch)> = ws.iter().map(|x| (0, Watch::new(x.ch.id()))).collect();
    let mut broken: Option<String> = None;
    let mut reported: Vec<bool> = vec![false; nw];
    loop {
        while let Ok((w, l)) = rx.recv_timeout(Duration::from_millis(20)) {
            take_line(&mut t, &l);
            if let Some((i, c, m)) = parse_v(&l) {
                reported[w] = true;
                note(&mut found, i, c, m, w);
            }
        }
        for x in ws.iter_mut().filter(|x| !x.done) {
            let at = sh.at(x.w);
            if at != last[x.w].0 {
                last[x.w] = (at, Watch::new(x.ch.id()));
            }
            match x.ch.try_wait() {
                Ok(Some(s)) => {
                    x.done = true;
                    // what it still had to say
                    std::thread::sleep(Duration::from_millis(30));
                    while let Ok((w, l)) = rx.try_recv() {
                        take_line(&mut t, &l);
                        if let Some((i, c, m)) = parse_v(&l) {
                            reported[w] = true;
                            note(&mut found, i, c, m, w);
                        }
                    }
                    if s.code() != Some(0) && !reported[x.w] {
                        if at == 0 {
                            broken = Some(format!("worker {}: {}", x.w, died(s)));
                        } else {
                            note(&mut found, at - 1, "crash".into(), died(s), x.w);
                        }
                    }
                }
                Ok(None) => {
                    if at != 0 && last[x.w].1.hung(x.ch.id(), HANG_MS) {
                        unsafe { kill(x.ch.id() as i32, 9) };
                        let _ = x.ch.wait();
                        x.done = true;
                        note(&mut found, at - 1, "hang".into(), format!("a run did not end within {} s", HANG_MS / 1000), x.w);
                    }
                }
                Err(e) => broken = Some(e.to_string()),
            }
        }
        if ws.iter().all(|x| x.done) {
            break;
        }
    }
    let search_s = search0.elapsed().as_secs_f64();
    while let Ok((_, l)) = rx.recv_timeout(Duration::from_millis(50)) {
        take_line(&mut t, &l);
    }
    if found.is_none() {
        if let Some(b) = broken {
            eprintln!("ellsim: {b}");
            return 2;
        }
    }
    // One seed, one execution: repeat some runs in another process.
    let mut redone = 0u64;
    let mut differ: Vec<u64> = vec![];
    if found.is_none() && !t.digests.is_empty() {
        let mut c = Command::new(me());
        c.args(["digest", prop, &master.to_string()]);
        for i in t.digests.keys() {
            c.arg(i.to_string());
        }
        if let Ok(o) = c.stderr(Stdio::null()).output() {
            let mut again: BTreeMap<u64, String> = BTreeMap::new();
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                if let Some((i, d)) = parse_d(l) {
                    again.insert(i, d);
                }
            }
            for (i, d) in &t.digests {
                if let Some(d2) = again.get(i) {
                    redone += 1;
                    if d != d2 {
                        differ.push(*i);
                    }
                }
            }
        }
        if let (Some(i), "C15") = (differ.first(), prop) {
            found = Some((*i, "diverge".into(), "the same history gives another result in another process".into(), 0));
        }
    }
    let mut code = 0;
    let mut viol_line = None;
    let mut min_tries = 0;
    if let Some((idx, class, msg, w)) = &found {
        let plan = gen::generate(prop, gen::seed_of(master, prop, *idx));
        let name = format!("{prop}-s{seed}-r{idx}");
        let rdir = format!("{verif}/replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = format!("{rdir}/{name}.plan");
        let mut text = String::new();
        writeln!(text, "# property {prop}: found by seed {seed}, run {idx}").unwrap();
        let mut confirmed = None;
        for _ in 0..3 {
            if let Ran::Viol(c, m, _) = exec_plan(dir, &plan, HANG_MS) {
                confirmed = Some((c, m));
                break;
            }
        }
        match confirmed {
            Some((c, m)) => {
                let before = plan.items.len();
                let mut mn = Min { dir, class: c, deadline: now_ms() + if tier == "thorough" { 180_000 } else { 45_000 }, tries: 0, best: plan, msg: m };
                mn.run();
                min_tries = mn.tries;
                writeln!(text, "# class {}: {}", mn.class, mn.msg).unwrap();
                writeln!(text, "# {} of {before} items after {} attempts to make it smaller", mn.best.items.len(), mn.tries).unwrap();
                text += &mn.best.text();
                println!("{}: {}", mn.class, mn.msg);
            }
            None => {
                // It needs the runs before it (something outlives a run): replay the worker's whole sequence
                writeln!(text, "# class {class}: {msg}").unwrap();
                writeln!(text, "# not reproduced by the run alone, so this repeats the sequence of runs that led to it").unwrap();
                writeln!(text, "sequence {prop} {master} {} {nw} {idx}", ws[*w].start).unwrap();
                println!("{class}: {msg}");
            }
        }
        if std::fs::write(&path, &text).is_err() {
            eprintln!("ellsim: cannot write {path}");
            return 2;
        }
        let again = run_replay(&path);
        match again {
            Ran::Viol(..) => {
                code = 1;
                viol_line = Some(format!("VIOLATION property={prop} replay={path}"));
            }
            _ => {
                eprintln!("ellsim: run {idx} of {prop} reported {class} ({msg}), but it did not happen again; no verdict");
                code = 2;
            }
        }
    }
    // evidence
    let distinct = merged(dir, "cases", nw);
    let states = merged(dir, "states", nw);
    let traces = merged(dir, "traces", nw);
    let faults: Vec<String> = t.counts.iter().filter(|(k, _)| k.starts_with("fault.") || k.starts_with("alloc.")).map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    let others: Vec<String> = t.counts.iter().filter(|(k, _)| !k.starts_with("fault.") && !k.starts_with("alloc.")).map(|(k, v)| format!("{}: {v}", esc(k))).collect();
    let samples: Vec<String> = t.samples.values().take(3).map(|s| esc(s)).collect();
    let samples = if samples.is_empty() { vec![esc(&gen::generate(prop, gen::seed_of(master, prop, 0)).text())] } else { samples };
    let notes: Vec<String> = t.notes.iter().map(|(k, (n, m))| format!("{}: {{\"times\": {n}, \"first\": {}}}", esc(k), esc(m))).collect();
    let feats = feature(prop);
    let rule = format!(
        "Run i of seed s executes the plan generated from mix(s, property, i). Non-trivial: at least 3 plan items executed, at least 2 different world shapes seen{}; distinct: by the hash of everything the library answered and of the schedules followed.",
        if feats.is_empty() { String::new() } else { format!(", and at least one of {feats:?} occurred in the run") }
    );
    let real = "arche_tape and untyped_vec (all of their code, built from /repo), std collections, unwinding, threads";
    let stub = if prop == "C13" {
        "global allocator (simulated), OS entropy (seeded), element types and their destructors"
    } else {
        "global allocator (simulated), grant order of arche_tape::sync::RwLock, waiting in the kernel and thread schedule (simulated), OS entropy (seeded), component types with their destructors, systems and clients"
    };
    let mut e = String::new();
    writeln!(e, "{{").unwrap();
    writeln!(e, " \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",", esc(prop), esc(tier)).unwrap();
    writeln!(e, " \"coverage\": {{").unwrap();
    writeln!(e, "  \"evaluations\": {}, \"distinct_nontrivial\": {distinct},", t.runs).unwrap();
    writeln!(e, "  \"rule\": {},", esc(&rule)).unwrap();
    writeln!(e, "  \"samples\": [{}],", samples.join(", ")).unwrap();
    writeln!(e, "  \"executions\": {}, \"nontrivial_runs\": {}, \"plan_items_executed\": {},", t.execs, t.nontrivial, t.items).unwrap();
    writeln!(e, "  \"seeds_per_hour\": {}, \"search_seconds\": {search_s:.2}, \"workers\": {nw},", (t.runs as f64 / search_s.max(0.001) * 3600.0) as u64).unwrap();
    writeln!(e, "  \"simulated_time\": {{\"unit\": \"scheduler steps and client operations (the library has no clock)\", \"steps\": {}}},", t.steps).unwrap();
    writeln!(e, "  \"faults_injected\": {{{}}},", faults.join(", ")).unwrap();
    writeln!(e, "  \"workload\": {{{}}},", others.join(", ")).unwrap();
    writeln!(e, "  \"distinct_world_shapes\": {states}, \"distinct_interleavings\": {traces},").unwrap();
    writeln!(e, "  \"measures\": \"world shape: hash of the multiset of component sets over live entities; interleaving: hash of the sequence of scheduling decisions of one parallel phase\",").unwrap();
    writeln!(e, "  \"repeated_in_another_process\": {redone}, \"repeats_that_differed\": {},", differ.len()).unwrap();
    writeln!(e, "  \"minimisation_attempts\": {min_tries},").unwrap();
    writeln!(e, "  \"observations_not_decisive_here\": {{{}}},", notes.join(", ")).unwrap();
    writeln!(e, "  \"components\": {{\"real\": {}, \"stub\": {}}}", esc(real), esc(stub)).unwrap();
    writeln!(e, " }},").unwrap();
    writeln!(e, " \"assumptions\": [\"sampling: no violation in the runs made is not a proof\", \"preemption happens at lock acquisitions and releases, between the accesses systems make, and (up to 64 times per parallel phase, in half of the phases) at control-flow edges inside library code; weak memory orders are not simulated\", \"component types, systems and clients are the simulator's\"],").unwrap();
    writeln!(e, " \"wall_s\": {:.2}, \"violations\": {}", t0.elapsed().as_secs_f64(), (code == 1) as u32).unwrap();
    writeln!(e, "}}").unwrap();
    let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
    if std::fs::write(format!("{verif}/evidence/{prop}.json"), e).is_err() {
        eprintln!("ellsim: cannot write the evidence file");
        return 2;
    }
    println!(
        "{prop} {tier} seed {seed}: {} runs ({} executions), {distinct} distinct non-trivial, {states} world shapes, {traces} interleavings, {search_s:.1} s{}",
        t.runs,
        t.execs,
        if t.runs < count && found.is_none() { " (stopped by the clock)" } else { "" }
    );
    if let Some(l) = viol_line {
        println!("{l}");
    }
    code
}

fn parse_d(l: &str) -> Option<(u64, String)> {
    let r = l.strip_prefix("D ")?;
    let (i, d) = r.split_once(' ')?;
    Some((i.parse().ok()?, d.to_string()))
}

fn take_line(t: &mut Tally, l: &str) {
    if let Some(r) = l.strip_prefix("C ") {
        if let Some((k, n)) = r.rsplit_once(' ') {
            *t.counts.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
        }
    } else if let Some(r) = l.strip_prefix("N ") {
        let (a, m) = r.split_once('\t').unwrap_or((r, ""));
        if let Some((k, n)) = a.rsplit_once(' ') {
            let e = t.notes.entry(k.into()).or_insert((0, one_line(m)));
            e.0 += n.parse::<u64>().unwrap_or(0);
        }
    } else if let Some(r) = l.strip_prefix("S ") {
        let n: Vec<u64> = r.split(' ').filter_map(|x| x.parse().ok()).collect();
        if n.len() == 5 {
            t.runs += n[0];
            t.execs += n[1];
            t.steps += n[2];
            t.items += n[3];
            t.nontrivial += n[4];
        }
    } else if let Some(r) = l.strip_prefix("P ") {
        if let Some((i, p)) = r.split_once(' ') {
            t.samples.insert(i.parse().unwrap_or(0), p.replace("\\n", "\n"));
        }
    } else if let Some((i, d)) = parse_d(l) {
        t.digests.insert(i, d);
    }
}

fn run_replay(path: &str) -> Ran {
    let text = std::fs::read_to_string(path).unwrap_or_default();
    if text.lines().any(|l| l.starts_with("sequence ")) {
        return exec_file(path, 600_000).0;
    }
    match Plan::parse(&text) {
        Ok(p) if p.prop == "C15" => {
            let dir = format!("{}/ellsim.replay.{}", std::env::temp_dir().display(), std::process::id());
            let _ = std::fs::create_dir_all(&dir);
            let r = exec_plan(&dir, &p, 30_000);
            let _ = std::fs::remove_dir_all(&dir);
            r
        }
        Ok(_) => exec_file(path, 30_000).0,
        Err(e) => Ran::Error(e),
    }
}

pub fn replay(path: &str) -> i32 {
    let seen: BTreeSet<String> = BTreeSet::new();
    let _ = seen;
    match run_replay(path) {
        Ran::Viol(c, m, _) => {
            let prop = std::fs::read_to_string(path)
                .ok()
                .and_then(|t| t.lines().find_map(|l| l.strip_prefix("prop ").or_else(|| l.strip_prefix("sequence ")).map(|s| s.split(' ').next().unwrap_or("").to_string())))
                .unwrap_or_default();
            println!("{c}: {m}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Ran::Fine => {
            println!("{path}: nothing wrong");
            0
        }
        Ran::Error(e) => {
            eprintln!("{path}: {e}");
            2
        }
    }
}
