//! One case: a plan, run on a fresh thread with everything reset; for C15, run several times under different
//! environments and compared.
use crate::alloc::Profile;
use crate::exec::{run_plan, RunResult};
use crate::plan::{Item, Plan};
use crate::report;
use crate::rng::mix;

pub const PROPS: [&str; 16] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16"];

/// Which classes of violation decide which property. Dying, hanging and surprising the harness decide all.
pub fn decisive(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["crash", "hang", "panic", "unexpected"];
    v.extend_from_slice(match prop {
        "C01" => &["state", "query", "stale", "drop-early", "drop-twice"][..],
        "C02" => &["id", "refusal", "state", "query"],
        "C03" => &["query", "state", "stale"],
        "C04" => &["drop-*", "state", "mem-badfree"],
        "C05" => &["mem-*", "state"],
        "C06" => &["excl", "stale", "query", "state"],
        "C07" => &["deadlock", "needless-wait", "self-conflict"],
        "C08" => &["deadlock", "excl", "stale", "query", "state", "drop-*"],
        "C09" => &["dtor-panic", "state", "query", "stale", "id", "drop-*", "mem-*"],
        "C10" => &["refusal", "state", "query", "stale", "id", "drop-*", "slot-leak"],
        "C11" => &["slot-leak", "id", "state", "drop-*", "mem-*"],
        "C12" => &["oom-ignored", "drop-twice", "drop-unknown", "mem-*"],
        "C13" => &["*"],
        "C14" => &["state", "query", "stale", "id", "api", "refusal", "drop-*"],
        "C15" => &["diverge"],
        "C16" => &["api", "state", "query"],
        _ => &["*"],
    });
    v
}

/// What must have happened in a run for it to say something about the property
pub fn feature(prop: &str) -> &'static [&'static str] {
    match prop {
        "C03" => &["query.static", "query.dynamic"],
        "C06" | "C07" => &["sched.lock_waits"],
        "C08" => &["fault.system_panic"],
        "C09" => &["fault.destructor_panic"],
        "C10" => &["fault.refused_panic", "fault.refused_quiet"],
        "C11" => &["fault.abandoned_builder", "fault.abandoned_by_panic"],
        "C12" => &["fault.alloc_failure"],
        "C14" => &["op.component_despawned"],
        _ => &[],
    }
}

pub struct Case {
    pub viol: Option<(String, String)>,
    pub res: RunResult,
    pub executions: u64,
    pub nontrivial: bool,
    pub digest: u64,
}

fn on_thread<R: Send>(f: impl FnOnce() -> R + Send) -> Result<R, String> {
    std::thread::scope(|s| {
        let h = std::thread::Builder::new().name("run".into()).stack_size(32 << 20).spawn_scoped(s, f).expect("cannot start a thread");
        h.join().map_err(|p| crate::exec::payload(&*p))
    })
}

struct SendRes(RunResult);
unsafe impl Send for SendRes {}

fn once(plan: &Plan) -> Option<RunResult> {
    match on_thread(|| SendRes(run_plan(plan))) {
        Ok(r) => {
            crate::exec::after_run(&r.0);
            Some(r.0)
        }
        Err(m) => {
            report::viol("unexpected", format!("the harness met something it cannot explain: {m}"));
            crate::exec::after_run(&RunResult::default());
            None
        }
    }
}

pub fn hash(v: &[u64]) -> u64 {
    v.iter().fold(v.len() as u64, |a, x| mix(a ^ *x))
}

/// The same history in other surroundings
fn variants(plan: &Plan) -> Vec<(&'static str, Plan)> {
    let mut out = vec![("run again", plan.clone())];
    let s = mix(plan.profile.seed ^ 0xC15);
    for (i, name) in ["another allocator and other addresses", "yet another allocator and other addresses"].into_iter().enumerate() {
        let b = mix(s ^ i as u64);
        let mut p = plan.clone();
        let o = plan.profile;
        p.profile = Profile {
            junk: (o.junk + 1 + (b % 3) as u32) % 4,
            moving: (o.moving + 1 + i as u32) % 3,
            align: (b >> 8) as u32 & 1,
            recycle: (b >> 9) as u32 & 1,
            guard: ((b >> 10) % 12 == 0) as u32,
            layout: (o.layout + 1 + i as u32) % 3,
            seed: b >> 16,
        };
        out.push((name, p));
    }
    if plan.items.iter().any(|i| matches!(i, Item::Par { .. })) {
        let mut p = plan.clone();
        p.serial = !plan.serial;
        out.push(("one thread", p));
    }
    out
}

pub fn run_case(plan: &Plan) -> Case {
    report::reset();
    let feats = feature(&plan.prop);
    let before: u64 = feats.iter().map(|f| report::get(f)).sum();
    let empty = || RunResult::default();
    let res = once(plan).unwrap_or_else(empty);
    let mut executions = 1;
    let after: u64 = feats.iter().map(|f| report::get(f)).sum();
    if plan.prop == "C15" && !report::has_viol() {
        for (name, p) in variants(plan) {
            executions += 1;
            let r = once(&p).unwrap_or_else(empty);
            if report::has_viol() {
                break;
            }
            if r.transcript != res.transcript {
                let at = r.transcript.iter().zip(&res.transcript).position(|(a, b)| a != b).unwrap_or(r.transcript.len().min(res.transcript.len()));
                report::viol(
                    "diverge",
                    format!(
                        "the same history gives another result with {name}: answer {at} is {:x?} instead of {:x?}",
                        r.transcript.get(at),
                        res.transcript.get(at)
                    ),
                );
                break;
            }
        }
    }
    let mut st = res.states.clone();
    st.sort();
    st.dedup();
    let nontrivial = res.items_done >= 3 && st.len() >= 2 && (feats.is_empty() || after > before);
    let digest = mix(hash(&res.transcript) ^ hash(&res.traces).rotate_left(17));
    Case { viol: report::take_viol(), digest, res, executions, nontrivial }
}
