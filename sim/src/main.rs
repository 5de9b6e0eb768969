#![feature(alloc_error_hook)]
#![allow(static_mut_refs, clippy::type_complexity, dead_code)]
mod check;
mod exec;
mod gen;
mod minimise;
mod model;
mod par;
mod plan;
mod runner;
mod sched;
mod uvec;
mod worker;
use ellbase::{alloc, report, rng, values};
use ellq as queries;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

fn install() {
    std::panic::set_hook(Box::new(|_| {}));
    std::alloc::set_alloc_error_hook(|_| {
        if alloc::note_reported() {
            std::panic::panic_any(values::OomInjected);
        }
    });
    #[cfg(ellecs_sim)]
    ellbase::hook::on_futex_wait(sched::futex_wait);
    #[cfg(ellecs_sim)]
    arche_tape::sim::install(&sched::SIM);
}

fn usage() -> ! {
    eprintln!(
        "ellsim check PROP TIER SEED VERIF_DIR   explore, report, write evidence\n\
         ellsim replay FILE                      run a replay file (exit 1 if the violation is there)\n\
         ellsim exec FILE                        run one plan in this process\n\
         ellsim plan PROP SEED INDEX             print the plan of one run\n\
         ellsim digest PROP SEED INDEX...        print digests of runs"
    );
    std::process::exit(2)
}

fn main() {
    std::panic::set_hook(Box::new(|i| eprintln!("ellsim: {i}")));
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| -> &str { a.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage()) };
    let n = |i: usize| -> u64 { s(i).parse().unwrap_or_else(|_| usage()) };
    match s(1) {
        "check" => std::process::exit(check::check(s(2), s(3), n(4), s(5))),
        "replay" => std::process::exit(check::replay(s(2))),
        "plan" => print!("{}", gen::generate(s(2), gen::seed_of(n(3), s(2), n(4))).text()),
        "worker" => {
            install();
            worker::worker(s(2), n(3), n(4), n(5), n(6), n(7), s(8), n(9) as usize);
        }
        "exec" => {
            install();
            std::process::exit(worker::exec(s(2)));
        }
        "digest" => {
            install();
            let idx: Vec<u64> = (4..a.len()).map(n).collect();
            worker::digest(s(2), n(3), &idx);
        }
        _ => usage(),
    }
}
