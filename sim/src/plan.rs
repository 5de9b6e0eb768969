//! A plan is everything a run does: configuration, operations, faults, threads and their schedule.
//! It is a pure function of the seed, and as text it is the replay file.
use crate::alloc::Profile;
use crate::sched::Strategy;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Ref {
    /// the entity some operation called `e<n>`
    E(u32),
    /// the id of component type n
    T(u8),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub code: String,
    pub h: Ref,
    pub c: Vec<Ref>,
    pub x: u64,
    pub y: u64,
    /// how often (crowd, churn)
    pub n: u64,
    /// the n-th destructor call of the operation panics
    pub dp: u32,
    /// the n-th allocation of the operation fails
    pub af: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum QSpec {
    S(u16),
    /// 'R', 'M' or 'E' (the reference is ignored for 'E')
    D(Vec<(char, Ref)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct QOp {
    pub q: QSpec,
    /// 0 rows, 1 columns, 2 point lookups, 3 nothing (open and close)
    pub mode: u8,
    /// payload base of writes; 0: read only
    pub x: u64,
    /// give up after this many rows
    pub stop: u32,
    /// panic after this many rows (1: before the first)
    pub panic: u32,
    /// extra yields while holding the query
    pub stall: u32,
    /// open while the previous query of this script is still held
    pub nest: bool,
    /// the n-th allocation of the query fails (not in parallel phases)
    pub af: u32,
    pub targets: Vec<Ref>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Op(Op),
    Q(QOp),
    Par { wpref: bool, pre: u64, sched: Strategy, threads: Vec<Vec<QOp>> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub profile: Profile,
    /// component types registered at the beginning
    pub prereg: u32,
    /// a second world does the same this many (less one) items later; 0: there is no second world
    pub twin: u32,
    /// the n-th allocation while making the world fails
    pub newaf: u32,
    /// the n-th destructor call while the world (C13: a vector) is dropped panics
    pub enddp: u32,
    /// full observation after every n-th item
    pub obs: u32,
    /// order of parallel threads is irrelevant: run them one after the other
    pub serial: bool,
    pub items: Vec<Item>,
}

fn rf(r: Ref) -> String {
    match r {
        Ref::E(n) => format!("e{n}"),
        Ref::T(n) => format!("t{n}"),
    }
}
fn prf(s: &str) -> Result<Ref, String> {
    let n = s.get(1..).unwrap_or("").parse::<u32>().map_err(|_| format!("bad reference {s}"))?;
    match &s[..1] {
        "e" => Ok(Ref::E(n)),
        "t" if (n as usize) < crate::values::NT => Ok(Ref::T(n as u8)),
        _ => Err(format!("bad reference {s}")),
    }
}

fn qop(o: &mut String, q: &QOp) {
    match &q.q {
        QSpec::S(i) => write!(o, "s={i}").unwrap(),
        QSpec::D(v) => {
            let f: Vec<String> = v.iter().map(|(c, r)| if *c == 'E' { "E".to_string() } else { format!("{c}:{}", rf(*r)) }).collect();
            write!(o, "d={}", f.join(",")).unwrap()
        }
    }
    for (k, v) in [("mode", q.mode as u64), ("x", q.x), ("stop", q.stop as u64), ("panic", q.panic as u64), ("stall", q.stall as u64), ("nest", q.nest as u64), ("af", q.af as u64)] {
        if v != 0 {
            write!(o, " {k}={v}").unwrap();
        }
    }
    if !q.targets.is_empty() {
        write!(o, " get={}", q.targets.iter().map(|r| rf(*r)).collect::<Vec<_>>().join(",")).unwrap();
    }
    o.push('\n');
}

impl Plan {
    pub fn text(&self) -> String {
        let mut o = String::new();
        let p = &self.profile;
        writeln!(o, "ellsim-plan 1").unwrap();
        writeln!(o, "prop {}", self.prop).unwrap();
        writeln!(
            o,
            "cfg junk={} moving={} align={} recycle={} guard={} layout={} aseed={} prereg={} twin={} newaf={} enddp={} obs={} serial={}",
            p.junk, p.moving, p.align, p.recycle, p.guard, p.layout, p.seed, self.prereg, self.twin, self.newaf, self.enddp, self.obs, self.serial as u8
        )
        .unwrap();
        for i in &self.items {
            match i {
                Item::Op(op) => {
                    write!(o, "op {} h={}", op.code, rf(op.h)).unwrap();
                    if !op.c.is_empty() {
                        write!(o, " c={}", op.c.iter().map(|r| rf(*r)).collect::<Vec<_>>().join(",")).unwrap();
                    }
                    for (k, v) in [("x", op.x), ("y", op.y), ("n", op.n), ("dp", op.dp as u64), ("af", op.af as u64)] {
                        if v != 0 {
                            write!(o, " {k}={v}").unwrap();
                        }
                    }
                    o.push('\n');
                }
                Item::Q(q) => {
                    o.push_str("q ");
                    qop(&mut o, q);
                }
                Item::Par { wpref, pre, sched, threads } => {
                    let s = match sched {
                        Strategy::Uniform(s) => format!("uniform:{s}"),
                        Strategy::Sticky(s, n) => format!("sticky:{s}:{n}"),
                        Strategy::Pct(s, d) => format!("pct:{s}:{d}"),
                        Strategy::Explicit(v) => {
                            format!("explicit:{}", v.iter().map(|(s, t)| format!("{s}@{t}")).collect::<Vec<_>>().join(","))
                        }
                    };
                    writeln!(o, "par wpref={} pre={pre} sched={s}", *wpref as u8).unwrap();
                    for t in threads {
                        o.push_str("thread\n");
                        for q in t {
                            o.push_str("  ");
                            qop(&mut o, q);
                        }
                    }
                    o.push_str("endpar\n");
                }
            }
        }
        o
    }

    pub fn parse(text: &str) -> Result<Plan, String> {
        let mut plan = Plan { prop: "C01".into(), profile: Profile::PLAIN, prereg: 0, twin: 0, newaf: 0, enddp: 0, obs: 1, serial: false, items: vec![] };
        let mut par: Option<(bool, u64, Strategy, Vec<Vec<QOp>>)> = None;
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let mut w = line.split_whitespace();
            let head = w.next().unwrap();
            if head == "ellsim-plan" {
                continue;
            }
            if head == "prop" {
                plan.prop = w.next().unwrap_or("").to_string();
                continue;
            }
            let mut code = String::new();
            if head == "op" {
                code = w.next().unwrap_or("").to_string();
            }
            let mut kv = std::collections::BTreeMap::new();
            let mut first = if par.is_some() && head.contains('=') { Some(head) } else { None };
            while let Some(t) = first.take().or_else(|| w.next()) {
                let (k, v) = t.split_once('=').ok_or_else(|| format!("bad field {t}"))?;
                kv.insert(k.to_string(), v.to_string());
            }
            let num = |k: &str| -> u64 { kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(0) };
            let refs = |k: &str| -> Result<Vec<Ref>, String> {
                kv.get(k).map(|v| v.split(',').filter(|s| !s.is_empty()).map(prf).collect()).unwrap_or(Ok(vec![]))
            };
            let mk_q = || -> Result<QOp, String> {
                let q = if let Some(s) = kv.get("s") {
                    QSpec::S(s.parse().map_err(|_| "bad query".to_string())?)
                } else {
                    let mut v = vec![];
                    for f in kv.get("d").map(|s| s.as_str()).unwrap_or("E").split(',') {
                        match f.split_once(':') {
                            None => v.push(('E', Ref::T(0))),
                            Some((c, r)) => v.push((c.chars().next().unwrap_or('R'), prf(r)?)),
                        }
                    }
                    QSpec::D(v)
                };
                Ok(QOp {
                    q,
                    mode: num("mode") as u8,
                    x: num("x"),
                    stop: num("stop") as u32,
                    panic: num("panic") as u32,
                    stall: num("stall") as u32,
                    nest: num("nest") != 0,
                    af: num("af") as u32,
                    targets: refs("get")?,
                })
            };
            match head {
                "cfg" => {
                    plan.profile = Profile {
                        junk: num("junk") as u32,
                        moving: num("moving") as u32,
                        align: num("align") as u32,
                        recycle: num("recycle") as u32,
                        guard: num("guard") as u32,
                        layout: num("layout") as u32,
                        seed: num("aseed"),
                    };
                    plan.prereg = num("prereg") as u32;
                    plan.twin = num("twin") as u32;
                    plan.newaf = num("newaf") as u32;
                    plan.enddp = num("enddp") as u32;
                    plan.obs = num("obs") as u32;
                    plan.serial = num("serial") != 0;
                }
                "op" => plan.items.push(Item::Op(Op {
                    code,
                    h: prf(kv.get("h").map(|s| s.as_str()).unwrap_or("e0"))?,
                    c: refs("c")?,
                    x: num("x"),
                    y: num("y"),
                    n: num("n"),
                    dp: num("dp") as u32,
                    af: num("af") as u32,
                })),
                "q" => plan.items.push(Item::Q(mk_q()?)),
                "par" => {
                    let s = kv.get("sched").cloned().unwrap_or_else(|| "explicit:".into());
                    let f: Vec<&str> = s.split(':').collect();
                    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                    let st = match f[0] {
                        "uniform" => Strategy::Uniform(n(1)),
                        "sticky" => Strategy::Sticky(n(1), (n(2) as u32).max(1)),
                        "pct" => Strategy::Pct(n(1), n(2) as u32),
                        _ => Strategy::Explicit(
                            f.get(1)
                                .unwrap_or(&"")
                                .split(',')
                                .filter_map(|p| p.split_once('@'))
                                .filter_map(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?)))
                                .collect(),
                        ),
                    };
                    par = Some((num("wpref") != 0, num("pre"), st, vec![]));
                }
                "thread" => par.as_mut().ok_or("thread outside par")?.3.push(vec![]),
                "endpar" => {
                    let (wpref, pre, sched, threads) = par.take().ok_or("endpar outside par")?;
                    plan.items.push(Item::Par { wpref, pre, sched, threads });
                }
                _ if par.is_some() => {
                    let q = mk_q()?;
                    par.as_mut().unwrap().3.last_mut().ok_or("query outside thread")?.push(q);
                }
                _ => return Err(format!("bad line {line}")),
            }
        }
        Ok(plan)
    }
}
