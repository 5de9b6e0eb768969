//! Violations, notes, probes and counters of the current run. Written from allocator callbacks too,
//! so recording from there must not allocate.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

/// The classes of violation the current property is decided by; others are only noted.
static DECISIVE: Mutex<Vec<String>> = Mutex::new(Vec::new());
static VIOL: Mutex<Option<(String, String)>> = Mutex::new(None);
static HAS: AtomicBool = AtomicBool::new(false);
static NOTES: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
static NOTE_MSG: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());

/// Raised inside the allocator: kind + three numbers, turned into a message later.
static A_KIND: AtomicUsize = AtomicUsize::new(0);
static A_NUM: [AtomicU64; 3] = [AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0)];
pub const ALLOC_KINDS: [(&str, &str); 8] = [
    ("", ""),
    ("mem-layout", "block freed or resized with another size or alignment than it was requested with (requested size, given size, requested align)"),
    ("mem-badfree", "block freed twice, or never allocated (size, align, -)"),
    ("mem-redzone-after", "bytes after a block were overwritten (size, align, offset past the end)"),
    ("mem-redzone-before", "bytes before a block were overwritten (size, align, -)"),
    ("mem-uaf-write", "a freed block was written to (size, align, offset)"),
    ("oom-ignored", "the library went on allocating after a failed allocation (size, align, -)"),
    ("mem-zero", "zero-sized or absurd allocation request (size, align, -)"),
];

pub fn alloc_viol(kind: usize, a: u64, b: u64, c: u64) {
    if A_KIND.compare_exchange(0, kind, Relaxed, Relaxed).is_ok() {
        A_NUM[0].store(a, Relaxed);
        A_NUM[1].store(b, Relaxed);
        A_NUM[2].store(c, Relaxed);
    }
}

pub fn set_decisive(v: &[&str]) {
    *DECISIVE.lock().unwrap() = v.iter().map(|s| s.to_string()).collect();
}

fn decisive(class: &str) -> bool {
    let d = DECISIVE.lock().unwrap();
    d.iter().any(|p| p == "*" || p == class || (p.ends_with('*') && class.starts_with(&p[..p.len() - 1])))
}

pub fn viol(class: &str, msg: String) {
    let was = crate::alloc::leave_sut();
    if decisive(class) {
        let mut v = VIOL.lock().unwrap();
        if v.is_none() {
            *v = Some((class.to_string(), msg));
            HAS.store(true, Relaxed);
        }
    } else {
        *NOTES.lock().unwrap().entry(class.to_string()).or_insert(0) += 1;
        NOTE_MSG.lock().unwrap().entry(class.to_string()).or_insert(msg);
    }
    crate::alloc::enter_sut(was);
}

/// Move what the allocator saw into the violation slot.
pub fn poll_alloc() {
    let k = A_KIND.swap(0, Relaxed);
    if k != 0 {
        let (c, m) = ALLOC_KINDS[k];
        let n = [A_NUM[0].load(Relaxed), A_NUM[1].load(Relaxed), A_NUM[2].load(Relaxed)];
        viol(c, format!("{m} = ({}, {}, {})", n[0], n[1], n[2]));
    }
}

pub fn has_viol() -> bool {
    HAS.load(Relaxed)
}

pub fn take_viol() -> Option<(String, String)> {
    HAS.store(false, Relaxed);
    VIOL.lock().unwrap().take()
}

pub fn take_notes() -> Vec<(String, u64, String)> {
    let n = std::mem::take(&mut *NOTES.lock().unwrap());
    let mut m = std::mem::take(&mut *NOTE_MSG.lock().unwrap());
    n.into_iter().map(|(k, v)| { let s = m.remove(&k).unwrap_or_default(); (k, v, s) }).collect()
}

/// The run under way, for the line `die` prints
pub static CURRENT: AtomicU64 = AtomicU64::new(0);

/// The run cannot be ended in an orderly way: say what happened and end the process.
pub fn die() -> ! {
    poll_alloc();
    let (c, m) = take_viol().unwrap_or(("hang".into(), "the run had to be cut short".into()));
    println!("V {} {c}\t{}", CURRENT.load(Relaxed), m.replace('\n', " "));
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { _exit(77) }
}
extern "C" {
    fn _exit(c: i32) -> !;
}

/// Value of one counter
pub fn get(name: &str) -> u64 {
    COUNTS.lock().unwrap().get(name).copied().unwrap_or(0)
}

pub fn reset() {
    *VIOL.lock().unwrap() = None;
    HAS.store(false, Relaxed);
    A_KIND.store(0, Relaxed);
}

/// Named counters: faults fired, probes hit.
static COUNTS: Mutex<BTreeMap<&'static str, u64>> = Mutex::new(BTreeMap::new());
pub fn count(name: &'static str, n: u64) {
    let was = crate::alloc::leave_sut();
    *COUNTS.lock().unwrap().entry(name).or_insert(0) += n;
    crate::alloc::enter_sut(was);
}
pub fn counts() -> BTreeMap<&'static str, u64> {
    COUNTS.lock().unwrap().clone()
}
