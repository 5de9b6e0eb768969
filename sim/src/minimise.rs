//! Makes a failing plan small. Every candidate is executed in a process of its own.
use crate::check::{exec_plan, Ran};
use crate::plan::*;
use crate::sched::Strategy;
use crate::{alloc::Profile, worker::now_ms};

pub struct Min<'a> {
    pub dir: &'a str,
    pub class: String,
    pub deadline: u64,
    pub tries: u64,
    pub best: Plan,
    pub msg: String,
}

impl Min<'_> {
    fn out_of_time(&self) -> bool {
        now_ms() > self.deadline || self.tries > 1500
    }
    fn test(&mut self, p: Plan) -> bool {
        if self.out_of_time() || p == self.best {
            return false;
        }
        self.tries += 1;
        match exec_plan(self.dir, &p, 10_000) {
            Ran::Viol(c, m, _) if c == self.class => {
                self.best = p;
                self.msg = m;
                true
            }
            _ => false,
        }
    }

    fn chunks(&mut self, len: impl Fn(&Plan) -> usize, cut: impl Fn(&Plan, usize, usize) -> Plan) {
        let mut size = len(&self.best).max(1).next_power_of_two() / 2;
        while size > 0 {
            let mut i = 0;
            while i < len(&self.best) {
                if self.out_of_time() {
                    return;
                }
                let end = (i + size).min(len(&self.best));
                let p = cut(&self.best, i, end);
                if !self.test(p) {
                    i += size;
                }
            }
            size /= 2;
        }
    }

    pub fn run(&mut self) {
        for round in 0..3 {
            let before = self.best.clone();
            self.chunks(
                |p| p.items.len(),
                |p, a, b| {
                    let mut q = p.clone();
                    q.items.drain(a..b);
                    q
                },
            );
            self.shrink_profile();
            self.shrink_items();
            if self.best == before || self.out_of_time() {
                break;
            }
            if round == 0 {
                self.explicit();
            }
        }
        self.explicit();
    }

    fn shrink_profile(&mut self) {
        let mut p = self.best.clone();
        p.profile = Profile { seed: p.profile.seed, ..Profile::PLAIN };
        if !self.test(p) {
            for i in 0..6 {
                let mut p = self.best.clone();
                let d = Profile::PLAIN;
                match i {
                    0 => p.profile.junk = d.junk,
                    1 => p.profile.moving = d.moving,
                    2 => p.profile.align = d.align,
                    3 => p.profile.recycle = d.recycle,
                    4 => p.profile.guard = d.guard,
                    _ => p.profile.layout = d.layout,
                }
                self.test(p);
            }
        }
        if self.best.prop != "C13" {
            let mut p = self.best.clone();
            p.prereg = 0;
            if !self.test(p) {
                for k in 0..crate::values::NT {
                    let mut p = self.best.clone();
                    p.prereg &= !(1 << k);
                    self.test(p);
                }
            }
        }
        if self.best.twin > 0 {
            let mut p = self.best.clone();
            p.twin = 0;
            if !self.test(p) && self.best.twin > 1 {
                let mut p = self.best.clone();
                p.twin = 1;
                self.test(p);
            }
        }
        let mut p = self.best.clone();
        p.newaf = 0;
        self.test(p);
        let mut p = self.best.clone();
        p.enddp = 0;
        self.test(p);
        if self.best.enddp > 1 {
            let mut p = self.best.clone();
            p.enddp = 1;
            self.test(p);
        }
        let mut p = self.best.clone();
        p.obs = 1;
        self.test(p);
        let mut p = self.best.clone();
        p.obs = 0;
        self.test(p);
    }

    fn shrink_items(&mut self) {
        let mut i = 0;
        while i < self.best.items.len() {
            if self.out_of_time() {
                return;
            }
            match self.best.items[i].clone() {
                Item::Op(_) => {
                    for k in 0..24 {
                        let Some(Item::Op(cur)) = self.best.items.get(i) else { break };
                        if let Some(o) = shrink_op(cur, k) {
                            let mut p = self.best.clone();
                            p.items[i] = Item::Op(o);
                            self.test(p);
                        }
                    }
                    // how often: the smallest number that will do
                    let n = |p: &Plan| match p.items.get(i) {
                        Some(Item::Op(o)) => o.n,
                        _ => 0,
                    };
                    let mut lo = 0;
                    while lo < n(&self.best) && !self.out_of_time() {
                        let mid = lo + (n(&self.best) - lo) / 2;
                        let mut p = self.best.clone();
                        if let Item::Op(o) = &mut p.items[i] {
                            o.n = mid;
                        }
                        if !self.test(p) {
                            lo = mid + 1;
                        }
                    }
                }
                Item::Q(_) => {
                    for k in 0..20 {
                        let Some(Item::Q(cur)) = self.best.items.get(i) else { break };
                        if let Some(o) = shrink_q(cur, k) {
                            let mut p = self.best.clone();
                            p.items[i] = Item::Q(o);
                            self.test(p);
                        }
                    }
                }
                Item::Par { .. } => self.shrink_par(i),
            }
            i += 1;
        }
    }

    fn shrink_par(&mut self, i: usize) {
        let with = |p: &Plan, f: &dyn Fn(&mut Vec<Vec<QOp>>)| -> Plan {
            let mut q = p.clone();
            if let Item::Par { threads, .. } = &mut q.items[i] {
                f(threads);
            }
            q
        };
        let count = |p: &Plan| match &p.items[i] {
            Item::Par { threads, .. } => threads.len(),
            _ => 0,
        };
        let mut t = count(&self.best);
        while t > 0 {
            t -= 1;
            if count(&self.best) > 1 {
                let p = with(&self.best, &|v| {
                    v.remove(t);
                });
                if self.test(p) {
                    continue;
                }
            }
            let n = match &self.best.items[i] {
                Item::Par { threads, .. } => threads[t].len(),
                _ => 0,
            };
            for j in (0..n).rev() {
                let p = with(&self.best, &|v| {
                    v[t].remove(j);
                });
                if self.test(p) {
                    continue;
                }
                for k in 0..20 {
                    let q = match &self.best.items[i] {
                        Item::Par { threads, .. } => threads[t][j].clone(),
                        _ => return,
                    };
                    if let Some(c) = shrink_q(&q, k) {
                        let p = with(&self.best, &|v| v[t][j] = c.clone());
                        self.test(p);
                    }
                }
            }
        }
        let mut p = self.best.clone();
        if let Item::Par { pre, .. } = &mut p.items[i] {
            *pre = 0;
        }
        self.test(p);
        let mut p = self.best.clone();
        if let Item::Par { wpref, .. } = &mut p.items[i] {
            *wpref = false;
        }
        self.test(p);
    }

    /// Replace seeded schedules by the decisions they made, and drop decisions.
    fn explicit(&mut self) {
        if !self.best.items.iter().any(|i| matches!(i, Item::Par { .. })) {
            return;
        }
        if let Ran::Viol(_, _, x) = exec_plan(self.dir, &self.best, 10_000) {
            let mut p = self.best.clone();
            crate::exec::profile_schedule(&mut p, &x);
            self.test(p);
        }
        for i in 0..self.best.items.len() {
            let len = move |p: &Plan| match &p.items[i] {
                Item::Par { sched: Strategy::Explicit(v), .. } => v.len(),
                _ => 0,
            };
            if i < self.best.items.len() && len(&self.best) > 0 {
                self.chunks(len, move |p, a, b| {
                    let mut q = p.clone();
                    if let Item::Par { sched: Strategy::Explicit(v), .. } = &mut q.items[i] {
                        v.drain(a..b);
                    }
                    q
                });
            }
        }
    }
}

/// The k-th way to make an operation simpler
fn shrink_op(op: &Op, k: usize) -> Option<Op> {
    let mut o = op.clone();
    match k {
        0 => o.dp = 0,
        1 => o.af = 0,
        2..=13 => {
            let j = 13 - k;
            if j >= op.c.len() {
                return None;
            }
            o.c.remove(j);
            // the interface bits move along
            let bits = |y: u64, at: u32| -> u64 {
                let m = (y >> at) & 0xFFF;
                let lo = m & ((1 << j) - 1);
                (lo | (m >> (j + 1)) << j) << at
            };
            o.y = (op.y & !(0xFFF_FFF << 8)) | bits(op.y, 8) | bits(op.y, 20);
        }
        14 => o.y = 0,
        15 => o.y &= 0xFFF,
        16 => o.y &= 0xFF,
        17 => o.dp = o.dp.min(1),
        18 => o.af = o.af.min(1),
        _ => return None,
    }
    if o == *op {
        None
    } else {
        Some(o)
    }
}

fn shrink_q(q: &QOp, k: usize) -> Option<QOp> {
    let mut c = q.clone();
    match k {
        0 => c.stop = 0,
        1 => c.panic = 0,
        2 => c.stall = 0,
        3 => c.nest = false,
        4 => c.x = 0,
        5 => {
            c.mode = 3;
            c.targets.clear();
        }
        6 => {
            if c.targets.len() > 1 {
                c.targets.truncate(1);
            }
        }
        7..=16 => {
            if let QSpec::D(f) = &mut c.q {
                let i = 16 - k;
                if f.len() > 1 && i < f.len() {
                    f.remove(i);
                }
            }
        }
        17 => c.af = 0,
        18 => c.af = c.af.min(1),
        _ => (),
    }
    if c == *q {
        None
    } else {
        Some(c)
    }
}
