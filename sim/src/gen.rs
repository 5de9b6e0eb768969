//! From one integer to a plan. Several clients issue operations; each knows only the handles it has seen, so
//! requests are late, repeated and stale the way they are in use. Weights are drawn anew for every run.
use crate::alloc::Profile;
use crate::plan::*;
use crate::queries::{Acc, QUERIES};
use crate::rng::{mix, Rng};
use crate::sched::Strategy;
use crate::values::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
struct GEnt {
    comps: BTreeSet<Ref>,
    /// 0 tag, 1 data by layout, 2 data by type
    kind: u8,
    carried: bool,
}

struct G<'a> {
    r: Rng,
    prop: &'a str,
    items: Vec<Item>,
    live: BTreeMap<Ref, GEnt>,
    dead: Vec<Ref>,
    next: u32,
    /// component types in play
    types: Vec<u8>,
    /// entities meant to be used as components
    tags: Vec<Ref>,
    clients: Vec<Vec<Ref>>,
    held: Vec<(usize, Op)>,
    pay: u64,
    dp: u32,
    max_ents: usize,
    many: bool,
    wide: bool,
    dynp: u64,
    /// components the parallel phase under construction fights over
    hot: Vec<Ref>,
}

pub fn seed_of(master: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(master);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ idx.wrapping_mul(0x9E37))
}

fn profile(r: &mut Rng, prop: &str) -> Profile {
    let mut p = Profile {
        junk: r.below(5) as u32,
        moving: r.below(3) as u32,
        align: r.chance(1, 4) as u32,
        recycle: r.chance(1, 4) as u32,
        guard: 0,
        layout: r.below(3) as u32,
        seed: r.next() >> 16,
    };
    let g = match prop {
        "C05" => 6,
        "C13" => 10,
        _ => 40,
    };
    if r.chance(1, g) {
        p.guard = 1;
    }
    p
}

/// Weights, in this order
const W: [&str; 20] = [
    "spawn", "spawnmeta", "spawnt", "abandon", "abandonpanic", "buildtwice", "badbuild", "despawn", "despawncomp", "despawnstale",
    "add", "addbad", "remove", "removebad", "write", "q", "par", "reg", "repeat", "delay",
];

fn weights(prop: &str) -> [u32; 20] {
    match prop {
        //        sp sm st ab ap bt bb de dc ds ad xb rm xb wr q  pa re rp dl
        "C01" => [12, 1, 1, 1, 1, 0, 0, 6, 1, 1, 24, 1, 18, 1, 10, 6, 1, 1, 2, 2],
        "C02" => [26, 1, 1, 6, 3, 0, 1, 24, 4, 6, 6, 2, 4, 2, 3, 3, 0, 1, 4, 4],
        "C03" => [18, 2, 1, 1, 0, 0, 0, 6, 1, 0, 14, 0, 8, 0, 3, 36, 1, 0, 0, 0],
        "C04" => [16, 1, 4, 3, 2, 0, 1, 10, 3, 0, 14, 1, 12, 1, 4, 5, 1, 0, 1, 1],
        "C05" => [16, 4, 2, 3, 1, 0, 1, 9, 2, 1, 16, 1, 12, 1, 6, 7, 1, 1, 0, 0],
        "C06" | "C07" | "C08" => [10, 1, 1, 1, 0, 0, 0, 2, 2, 0, 10, 0, 4, 0, 2, 6, 14, 2, 0, 0],
        "C09" => [20, 1, 3, 2, 0, 0, 0, 20, 6, 0, 12, 0, 20, 0, 4, 4, 0, 0, 0, 0],
        "C10" => [14, 2, 2, 1, 1, 5, 10, 6, 2, 6, 10, 12, 6, 10, 3, 4, 0, 1, 6, 4],
        "C11" => [16, 2, 1, 20, 10, 0, 4, 8, 2, 0, 8, 0, 6, 0, 2, 3, 0, 1, 0, 0],
        "C12" => [20, 2, 2, 3, 1, 0, 0, 6, 2, 0, 16, 0, 10, 0, 4, 4, 0, 2, 0, 0],
        "C14" => [18, 5, 4, 1, 0, 0, 0, 6, 14, 2, 18, 0, 8, 0, 5, 5, 0, 4, 1, 1],
        "C15" => [16, 2, 2, 1, 1, 0, 1, 8, 2, 1, 14, 1, 10, 1, 5, 8, 3, 2, 1, 1],
        "C16" => [14, 2, 6, 1, 0, 0, 0, 5, 4, 1, 18, 1, 12, 1, 12, 14, 1, 4, 1, 1],
        _ => [10; 20],
    }
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let profile = profile(&mut r, prop);
    if prop == "C13" {
        return crate::uvec::generate(r.next(), profile);
    }
    let mut g = G {
        prop,
        items: vec![],
        live: BTreeMap::new(),
        dead: vec![],
        next: 0,
        types: vec![],
        tags: vec![],
        clients: vec![vec![]; r.range(1, 4) as usize],
        held: vec![],
        pay: 1,
        dp: 0,
        max_ents: 0,
        many: false,
        wide: false,
        hot: vec![],
        dynp: *r.clone().pick(&[0, 2, 5, 10]),
        r: r.clone(),
    };
    let conc = matches!(prop, "C06" | "C07" | "C08");
    // swarm: which kinds, which operations, how long
    let nt = g.r.range(2, 6) as usize;
    let mut pool: Vec<u8> = if conc || g.r.chance(1, 3) { vec![0, 2, 10] } else { vec![] };
    while pool.len() < nt {
        let k = g.r.below(NT as u64) as u8;
        if !pool.contains(&k) {
            pool.push(k);
        }
    }
    let wide = if conc { g.r.chance(1, 6) } else { g.r.chance(1, 30) };
    if wide {
        // queries over more components than fingers on a hand
        let all = if g.r.chance(1, 2) { NT } else { 9 };
        while pool.len() < all {
            let k = g.r.below(NT as u64) as u8;
            if !pool.contains(&k) {
                pool.push(k);
            }
        }
    }
    g.wide = wide;
    g.types = pool;
    let mut w = weights(prop);
    for x in w.iter_mut() {
        if g.r.chance(1, 5) {
            *x = (*x).min(1) * g.r.below(2) as u32;
        } else {
            *x = *x * g.r.range(1, 6) as u32;
        }
    }
    // the operations a property is about stay in
    let must: &[&str] = match prop {
        "C02" => &["spawn", "despawn"],
        "C03" => &["spawn", "q"],
        "C06" | "C07" | "C08" => &["spawn", "par"],
        "C09" => &["spawn", "despawn", "remove"],
        "C10" => &["spawn", "add"],
        "C11" => &["spawn", "abandon"],
        "C14" => &["spawn", "despawncomp", "add"],
        _ => &["spawn"],
    };
    for m in must {
        let i = W.iter().position(|x| x == m).unwrap();
        w[i] = w[i].max(12);
    }
    let size = g.r.below(100);
    let mut n = match size {
        0..=19 => g.r.range(3, 8),
        20..=69 => g.r.range(8, 30),
        70..=94 => g.r.range(30, 70),
        _ => g.r.range(70, 160),
    };
    g.max_ents = g.r.range(3, 24) as usize;
    if conc {
        n = g.r.range(6, 18);
        g.max_ents = g.r.range(2, 8) as usize;
    }
    let (mut bulk, mut huge, mut vast) = (false, false, false);
    if matches!(prop, "C01" | "C03" | "C05" | "C15" | "C16" | "C14") && g.r.chance(1, if prop == "C03" { 4 } else { 14 }) {
        // more archetypes than fit one word of a bitset
        g.many = true;
        n = g.r.range(90, 220);
        g.max_ents = 160;
        while g.types.len() < 7 {
            let k = g.r.below(NT as u64) as u8;
            if !g.types.contains(&k) {
                g.types.push(k);
            }
        }
    } else if !conc && g.r.chance(1, 24) {
        bulk = true;
        n = g.r.range(100, 260);
        g.max_ents = 400;
        g.types.truncate(3);
    }
    g.dp = match prop {
        "C09" => 3,
        "C14" => 8,
        _ => 0,
    };
    let prereg = match g.r.below(3) {
        0 => 0,
        1 => g.types.iter().fold(0u32, |a, k| a | 1 << k),
        _ => g.r.next() as u32 & 0xFFF,
    };
    for k in 0..NT as u8 {
        if prereg >> k & 1 == 1 {
            g.live.insert(Ref::T(k), GEnt { comps: BTreeSet::new(), kind: 2, carried: false });
        }
    }
    for _ in 0..g.r.below(4) {
        g.tag();
    }
    if conc {
        for _ in 0..g.r.range(1, 4) {
            g.step("spawn");
        }
    }
    if conc && g.r.chance(1, 40) {
        // many components, many locks
        let k = *g.r.clone().pick(&[20, 70, 140]);
        g.fan(k);
        for _ in 0..4 {
            let c = g.r.below(k) as u32;
            let all: Vec<Ref> = g.live.iter().filter(|(_, e)| e.carried).map(|(h, _)| *h).collect();
            g.tags.push(all[c as usize % all.len()]);
        }
        n += g.items.len() as u64;
    }
    if conc && g.r.chance(1, 4000) {
        let k = g.r.range(65_538, 65_600);
        g.vast(k, true);
        n += g.items.len() as u64;
        vast = true;
    }
    if !conc && g.r.chance(1, 80) {
        // more components on one entity than a word has bits
        let k = *g.r.clone().pick(&[12, 33, 66, 70, 131, 260]);
        g.step("spawn");
        g.pile(k);
        g.many |= k > 33;
        n = g.items.len() as u64 + n.min(40);
    }
    if prop == "C02" && g.r.chance(1, 24_000) {
        let n = (1 << 20) + 1 + g.r.below(40);
        let y = g.r.below(3);
        let mut op = g.op("flood", Ref::E(0), vec![], y);
        op.n = n;
        g.push(op);
    }
    if prop == "C02" && g.r.chance(1, 24_000) {
        let n = (1 << 24) + g.r.below(40);
        let mut op = g.op("spin", Ref::E(0), vec![], 0);
        op.n = n;
        g.push(op);
    }
    // quantities that do not fit small integers
    if !conc && (!bulk || g.r.chance(1, 2)) {
        let big = g.r.chance(1, 1500);
        let odds = if matches!(prop, "C02" | "C11" | "C14") { 12 } else { 30 };
        if big || g.r.chance(1, odds) {
            let k = if big { g.r.range(65_540, 66_500) } else { *g.r.clone().pick(&[40, 130, 260, 300, 520]) + g.r.below(20) };
            for _ in 0..g.r.below(3) {
                g.step("spawn");
            }
            match g.r.below(5) {
                0 | 1 => g.churn(k),
                2 if !big => g.fan(k.min(320)),
                2 => {
                    let locks = g.r.chance(1, 2);
                    g.vast(k, locks);
                    vast = true;
                }
                _ => g.crowd(k),
            }
            if !vast && g.r.chance(1, if big { 2 } else { 3 }) {
                // (every despawn looks at every archetype)
                // many at once
                let first = g.next + 1;
                g.crowd(k);
                if g.r.chance(1, 2) {
                    g.step("spawn");
                }
                let skip = if g.r.chance(1, 2) { 0 } else { g.r.below(9) };
                for h in first + skip as u32..first + k as u32 {
                    g.live.remove(&Ref::E(h));
                }
                g.dead.push(Ref::E(first + skip as u32));
                g.dead.push(Ref::E(first + k as u32 - 1));
                let y = g.r.below(3);
                let mut op = g.op("wipe", Ref::E(first + skip as u32), vec![], y);
                op.n = k - skip;
                g.push(op);
                if g.r.chance(1, 2) {
                    g.crowd(k);
                }
            }
            if k > 100 {
                // long parallel phases say nothing that short ones do not
                w[W.iter().position(|x| *x == "par").unwrap()] = 0;
            }
            n = g.items.len() as u64 + if big { 6 } else { n.min(40) };
            bulk = true;
            huge = big;
        }
    }
    while (g.items.len() as u64) < n {
        if !g.held.is_empty() && g.r.chance(1, 4) {
            let i = g.r.below(g.held.len() as u64) as usize;
            let (_, op) = g.held.remove(i);
            g.emit(op);
            continue;
        }
        let mut k = g.r.weighted(&w);
        if g.live.len() > g.max_ents + g.tags.len() && W[k] == "spawn" {
            k = W.iter().position(|x| *x == "despawn").unwrap();
        }
        let name = W[k];
        g.step(name);
    }
    if conc && !g.items.iter().any(|i| matches!(i, Item::Par { .. })) {
        g.par();
    }
    if matches!(prop, "C01" | "C03" | "C05" | "C06" | "C07" | "C08" | "C15") && !vast {
        let n = if prop == "C07" || conc && g.r.chance(1, 2) { 3000 } else { 6000 };
        let many = g.r.chance(1, n);
        if many || g.r.chance(1, if conc { 25 } else { 80 }) {
            let k = if many { 65_600 + g.r.below(400) } else { *g.r.clone().pick(&[3, 9, 20, 40, 70, 140, 300, 1100]) + g.r.below(6) };
            let mut c: Vec<Ref> = vec![];
            for _ in 0..g.r.range(1, 4) {
                let x = g.any_comp();
                c.push(x);
            }
            let y = g.r.below(4);
            let mut op = g.op("hoard", Ref::E(0), c, y);
            op.n = k;
            let at = g.items.len() / 2 + g.r.below(g.items.len() as u64 / 2 + 1) as usize;
            g.items.insert(at, Item::Op(op));
        }
    }
    let mut items = g.items;
    if prop == "C12" {
        // one allocation somewhere fails
        let idx: Vec<usize> = items.iter().enumerate().filter(|(_, i)| matches!(i, Item::Op(o) if o.code != "observe" && o.code != "write")).map(|(i, _)| i).collect();
        if !idx.is_empty() {
            let late = idx.len() / 4;
            let at = idx[late + g.r.below((idx.len() - late) as u64) as usize];
            if let Item::Op(o) = &mut items[at] {
                o.af = g.r.range(1, 1 + g.r.clone().below(7)) as u32;
            }
            // ... and if that operation does not allocate, one of the next
            for it in items.iter_mut().skip(at + 1) {
                if let Item::Q(q) = it {
                    if g.r.chance(1, 2) {
                        q.af = g.r.range(1, 3) as u32;
                        q.panic = 0;
                    }
                }
                if let Item::Op(o) = it {
                    if g.r.chance(2, 3) && o.code != "write" {
                        o.af = g.r.range(1, 4) as u32;
                    }
                }
            }
        }
    }
    let obs = if huge || vast {
        100_000
    } else if bulk || g.many { g.r.range(15, 60) as u32 } else { *g.r.pick(&[1, 1, 2, 5, 12]) };
    let twin = if g.r.chance(1, 10) && !huge && !vast { 1 + g.r.below(6) as u32 } else { 0 };
    let newaf = if prop == "C12" && g.r.chance(1, 60) { g.r.range(1, 5) as u32 } else { 0 };
    let enddp = if prop == "C09" && g.r.chance(1, 3) { g.r.range(1, 12) as u32 } else { 0 };
    Plan { prop: prop.into(), profile, prereg, twin, newaf, enddp, obs, serial: false, items }
}

impl G<'_> {
    fn h(&mut self) -> Ref {
        self.next += 1;
        Ref::E(self.next)
    }
    fn push(&mut self, op: Op) {
        self.items.push(Item::Op(op));
    }
    fn op(&mut self, code: &str, h: Ref, c: Vec<Ref>, y: u64) -> Op {
        self.pay += 1;
        Op { code: code.into(), h, c, x: self.pay, y, n: 0, dp: 0, af: 0 }
    }
    fn tag(&mut self) {
        let h = self.h();
        let code = match self.r.below(6) {
            0..=2 => "spawn",
            3 | 4 => "spawnmeta",
            _ => "spawnt",
        };
        let y = self.r.next() & 0xFF;
        let y = if code == "spawn" { y & !1 } else { y };
        let op = self.op(code, h, vec![], y);
        self.emit(op);
        self.tags.push(h);
    }
    fn apis(&mut self) -> u64 {
        // per component: through the dynamic interface?
        let mut y = 0;
        for i in 0..12 {
            if self.r.chance(self.dynp, 10) {
                y |= 1u64 << (8 + i);
            }
            if self.r.chance(1, 2) {
                y |= 1u64 << (20 + i);
            }
            if self.r.chance(1, 12) {
                y |= 1u64 << (32 + i);
            }
        }
        y
    }
    /// An entity some client believes in
    fn someone(&mut self) -> Option<Ref> {
        let c = self.r.below(self.clients.len() as u64) as usize;
        let known: Vec<Ref> = self.clients[c].clone();
        let live: Vec<Ref> = known.iter().copied().filter(|h| self.live.contains_key(h)).collect();
        if !live.is_empty() && !self.r.chance(1, 12) {
            return Some(*self.r.pick(&live));
        }
        let all: Vec<Ref> = self.live.keys().copied().filter(|h| matches!(h, Ref::E(_)) || self.r.clone().chance(1, 8)).collect();
        if all.is_empty() {
            return None;
        }
        Some(*self.r.pick(&all))
    }
    fn stale(&mut self) -> Option<Ref> {
        if self.dead.is_empty() {
            return None;
        }
        let d = self.dead.clone();
        Some(*self.r.pick(&d))
    }
    fn any_comp(&mut self) -> Ref {
        if !self.tags.is_empty() && self.r.chance(1, 4) {
            let t = self.tags.clone();
            let t = *self.r.pick(&t);
            if self.live.contains_key(&t) || self.r.chance(1, 10) {
                return t;
            }
        }
        if self.r.chance(1, 40) {
            if let Some(s) = self.someone() {
                return s;
            }
        }
        let ty = self.types.clone();
        Ref::T(*self.r.pick(&ty))
    }
    fn set(&mut self) -> Vec<Ref> {
        let n = if self.wide && self.r.chance(1, 2) {
            self.r.range(6, 14)
        } else if self.many {
            self.r.range(1, 6)
        } else {
            self.r.below(5)
        };
        let mut v: Vec<Ref> = vec![];
        for _ in 0..n {
            let c = self.any_comp();
            if !v.contains(&c) && (matches!(c, Ref::T(_)) || self.live.contains_key(&c)) {
                v.push(c);
            }
        }
        v
    }

    /// Put an operation into the plan and follow its effect.
    fn emit(&mut self, mut op: Op) {
        let ok_comp = |g: &Self, c: &Ref| matches!(c, Ref::T(_)) || g.live.contains_key(c);
        match op.code.as_str() {
            "spawn" | "spawnmeta" | "spawnt" | "buildtwice" => {
                let dups = op.c.iter().collect::<BTreeSet<_>>().len() != op.c.len();
                if !dups && op.c.iter().all(|c| ok_comp(self, c)) {
                    for c in &op.c.clone() {
                        self.touch(*c);
                    }
                    let kind = match op.code.as_str() {
                        "spawnmeta" => 1,
                        "spawnt" => 2,
                        _ => 0,
                    };
                    self.live.insert(op.h, GEnt { comps: op.c.iter().copied().collect(), kind, carried: false });
                    let c = self.r.below(self.clients.len() as u64) as usize;
                    self.clients[c].push(op.h);
                    if self.r.chance(1, 3) {
                        let d = self.r.below(self.clients.len() as u64) as usize;
                        self.clients[d].push(op.h);
                    }
                }
            }
            "despawn" => {
                if self.live.remove(&op.h).is_some() {
                    for e in self.live.values_mut() {
                        e.comps.remove(&op.h);
                    }
                    self.dead.push(op.h);
                    if self.dp > 0 && self.r.chance(1, self.dp as u64) {
                        op.dp = self.r.range(1, 5) as u32;
                    }
                }
            }
            "add" => {
                if let Some(c) = op.c.first().copied() {
                    if ok_comp(self, &c) && self.live.contains_key(&op.h) {
                        self.touch(c);
                        self.live.get_mut(&op.h).unwrap().comps.insert(c);
                    }
                }
            }
            "remove" => {
                if let (Some(c), true) = (op.c.first().copied(), self.live.contains_key(&op.h)) {
                    if self.live.get_mut(&op.h).unwrap().comps.remove(&c) && self.dp > 0 && self.r.chance(1, self.dp as u64) {
                        op.dp = 1;
                    }
                }
            }
            "abandon" => {
                if self.dp > 0 && self.r.chance(1, 2 * self.dp as u64) {
                    op.dp = self.r.range(1, 4) as u32;
                }
            }
            _ => (),
        }
        self.push(op);
    }
    fn touch(&mut self, c: Ref) {
        let e = self.live.entry(c).or_insert(GEnt { comps: BTreeSet::new(), kind: 2, carried: true });
        e.carried = true;
    }

    /// Many entities alike
    fn crowd(&mut self, n: u64) {
        let mut c = self.set();
        c.truncate(if n > 1000 { 2 } else { 4 });
        c.retain(|c| matches!(c, Ref::T(_)) || self.live.contains_key(c));
        let y = self.apis();
        let first = Ref::E(self.next + 1);
        let mut op = self.op("crowd", first, c.clone(), y);
        op.n = n;
        for c in &c {
            self.touch(*c);
        }
        // the clients know some of them
        for i in 0..n {
            let h = self.h();
            if i < 4 || i + 4 >= n || i % (n / 8) == 0 {
                self.live.insert(h, GEnt { comps: c.iter().copied().collect(), kind: 0, carried: false });
                for cl in self.clients.iter_mut() {
                    cl.push(h);
                }
            }
        }
        self.push(op);
        if self.r.chance(1, if n > 1000 { 1 } else { 3 }) {
            self.look_up(&c, n as u32);
        }
    }
    /// Point lookups of rows that are far down their archetype
    fn look_up(&mut self, c: &[Ref], n: u32) {
        let fit: Vec<u16> = (0..QUERIES.len() as u16)
            .filter(|i| QUERIES[*i as usize].iter().all(|a| matches!(a, Acc::R(k) | Acc::M(k) if c.contains(&Ref::T(*k))) || matches!(a, Acc::E)))
            .collect();
        if fit.is_empty() {
            return;
        }
        let last = self.next;
        let mut q = self.qop(false);
        q.q = QSpec::S(*self.r.pick(&fit));
        q.mode = 2;
        q.targets = vec![Ref::E(last), Ref::E(last - n / 2), Ref::E(last - 1), Ref::E(last + 1 - n)];
        q.targets.truncate(self.r.range(1, 4) as usize);
        self.items.push(Item::Q(q));
    }
    /// More archetypes than a small integer counts, and as many locks
    fn vast(&mut self, n: u64, locks: bool) {
        let first = self.next + 1;
        let mut op = self.op("vast", Ref::E(first), vec![], !locks as u64);
        op.n = n;
        let know = |g: &mut Self, h: u32, comps: BTreeSet<Ref>, carried: bool| {
            g.live.insert(Ref::E(h), GEnt { comps, kind: 0, carried });
            for cl in g.clients.iter_mut() {
                cl.push(Ref::E(h));
            }
        };
        if locks {
            for i in 0..n as u32 {
                let (t, e) = (self.h(), self.h());
                if i < 3 || i + 4 > n as u32 || i % (n as u32 / 6) == 0 {
                    let Ref::E(h) = e else { continue };
                    self.tags.push(t);
                    self.live.insert(t, GEnt { comps: BTreeSet::new(), kind: 0, carried: true });
                    know(self, h, [t].into(), false);
                }
            }
        } else {
            for _ in 0..18 {
                self.h();
            }
            let gray = (n - 1) ^ (n - 1) >> 1;
            let on = (0..17).filter(|i| gray >> i & 1 == 1).map(|i| Ref::E(first + i)).collect();
            for i in 0..17 {
                self.tags.push(Ref::E(first + i));
                know(self, first + i, BTreeSet::new(), true);
            }
            know(self, first + 17, on, false);
        }
        self.push(op);
        // there and back again
        let who: Vec<(Ref, Ref)> = if locks {
            (0..3).map(|i| (Ref::E(first + 2 * (n as u32 - 1 - i) + 1), Ref::E(first + 2 * (n as u32 - 1 - i)))).collect()
        } else {
            (0..4).map(|_| (Ref::E(first + 17), Ref::E(first + self.r.below(17) as u32))).collect()
        };
        for (e, t) in who {
            for _ in 0..self.r.range(1, 6) {
                let Some(x) = self.live.get(&e) else { continue };
                let op = self.op(if x.comps.contains(&t) { "remove" } else { "add" }, e, vec![t], 1);
                self.emit(op);
            }
        }
    }
    /// One slot used many times
    fn churn(&mut self, n: u64) {
        let mut c = if n > 1000 || self.r.chance(1, 2) { vec![] } else { self.set() };
        c.retain(|c| matches!(c, Ref::T(_)) || self.live.contains_key(c));
        for c in &c {
            self.touch(*c);
        }
        // an id of the slot before it is worn
        let mut old = vec![];
        for _ in 0..self.r.range(1, 3) {
            let h = self.h();
            let op = self.op("spawn", h, vec![], 0);
            self.emit(op);
            old.push(h);
        }
        let carrier = self.someone();
        if let (Some(e), true) = (carrier, self.r.chance(1, 2)) {
            let op = self.op("add", e, vec![old[0]], 1);
            if e != old[0] && self.live.contains_key(&e) {
                self.emit(op);
            }
        }
        let worn = *old.last().unwrap();
        for h in old {
            let op = self.op("despawn", h, vec![], 0);
            self.emit(op);
        }
        let code = if self.r.chance(1, 4) { "churnab" } else { "churn" };
        let y = (self.apis() & !0xFF) | 0xFF;
        let h = self.h();
        let mut op = self.op(code, h, c, if code == "churn" { y & !0xFF } else { y });
        // until the slot is as far from an old id as fits a small integer
        let wrap = self.r.chance(1, 2);
        op.n = match n {
            1..=200 if wrap => 127 - self.r.below(2),
            201..=1000 if wrap => 255 - self.r.below(2),
            1001.. if wrap => 65_535 - self.r.below(2),
            _ => n,
        };
        if code == "churn" {
            self.dead.push(h);
        }
        self.push(op);
        if wrap {
            self.step("spawn");
            for _ in 0..self.r.range(1, 4) {
                let e = if self.r.chance(1, 2) { Some(worn) } else { self.someone() };
                let c = if self.r.chance(1, 2) { worn } else { self.any_comp() };
                let Some(e) = e else { continue };
                let y = self.r.below(3);
                let op = match self.r.below(4) {
                    0 => self.op("despawn", worn, vec![], 0),
                    1 => self.op("remove", e, vec![c], y & 1),
                    2 => {
                        let h = self.h();
                        self.op("spawn", h, vec![worn], y << 8)
                    }
                    _ => self.op("add", e, vec![c], y),
                };
                self.emit(op);
            }
        }
    }
    /// Many components on one entity
    fn pile(&mut self, n: u64) {
        let Some(to) = self.someone() else { return };
        let first = self.next + 1;
        let y = self.r.below(5);
        let mut op = self.op("pile", Ref::E(first), vec![to], y);
        op.n = n;
        self.push(op);
        let mut all = vec![];
        for _ in 0..n {
            let h = self.h();
            self.live.insert(h, GEnt { comps: BTreeSet::new(), kind: 0, carried: true });
            all.push(h);
        }
        self.live.get_mut(&to).unwrap().comps.extend(all.iter().copied());
        for _ in 0..4 {
            let t = *self.r.pick(&all);
            self.tags.push(t);
        }
        for cl in self.clients.iter_mut() {
            cl.push(to);
        }
        // and some of them off again
        for _ in 0..self.r.below(8) {
            let c = *self.r.pick(&all);
            let op = match self.r.below(4) {
                0 => self.op("despawn", c, vec![], 0),
                1 => self.op("write", to, vec![c], 1),
                _ => self.op("remove", to, vec![c], 1),
            };
            self.emit(op);
        }
    }
    /// Many ids used as components: many archetypes, many locks, long transition tables
    fn fan(&mut self, n: u64) {
        let first = self.next + 1;
        let mut op = self.op("crowd", Ref::E(first), vec![], 0);
        op.n = n;
        self.push(op);
        for _ in 0..n {
            let h = self.h();
            self.live.insert(h, GEnt { comps: BTreeSet::new(), kind: 0, carried: false });
        }
        let mut base = vec![];
        for _ in 0..self.r.range(1, 3) {
            let h = self.h();
            let mut c = self.set();
            c.truncate(2);
            let op = self.op("spawn", h, c, 0);
            self.emit(op);
            base.push(h);
        }
        for i in 0..n {
            let t = Ref::E(first + i as u32);
            if i % 16 == 5 {
                self.tags.push(t);
            }
            if self.r.chance(1, 4) {
                let h = self.h();
                let mut c = self.set();
                c.truncate(2);
                c.retain(|x| *x != t);
                c.push(t);
                let y = self.apis();
                let op = self.op("spawn", h, c, y);
                self.emit(op);
                continue;
            }
            let b = base.clone();
            let e = *self.r.pick(&b);
            if !self.live.get(&e).is_some_and(|x| !x.comps.contains(&t)) {
                continue;
            }
            let op = self.op("add", e, vec![t], 1);
            self.emit(op);
            if !self.r.chance(1, 24) {
                let op = self.op("remove", e, vec![t], 1);
                self.emit(op);
            }
        }
    }

    fn step(&mut self, name: &str) {
        match name {
            "spawn" => {
                let c = self.set();
                let y = self.apis() | (self.r.next() & 0x7F) & if self.r.chance(1, 3) { 0x7F } else { 0 };
                let h = self.h();
                let op = self.op("spawn", h, c, y);
                self.emit(op);
                if self.prop == "C14" && self.r.chance(1, 4) {
                    self.tags.push(h);
                }
            }
            "spawnmeta" | "spawnt" => {
                let c = if self.r.chance(1, 2) { self.set() } else { vec![] };
                let y = (self.apis() & !0xFF) | self.r.next() & 0xFF;
                let h = self.h();
                let op = self.op(name, h, c, y);
                self.emit(op);
                self.tags.push(h);
            }
            "abandon" | "abandonpanic" => {
                let forget = matches!(self.prop, "C01" | "C02" | "C04" | "C05") && self.r.chance(1, 20);
                let name = if forget { "forget" } else { name };
                let c = self.set();
                let y = (self.apis() & !0xFF) | self.r.next() & 0xFF;
                let op = self.op(name, Ref::E(0), c, y);
                self.emit(op);
            }
            "buildtwice" => {
                let c = self.set();
                let y = self.apis();
                let h = self.h();
                let op = self.op("buildtwice", h, c, y);
                self.emit(op);
            }
            "badbuild" => {
                let mut c = self.set();
                if c.is_empty() {
                    let x = self.any_comp();
                    c.push(x);
                }
                match self.r.below(3) {
                    0 => {
                        if let Some(d) = self.stale() {
                            let i = self.r.below(c.len() as u64 + 1) as usize;
                            c.insert(i, d);
                        }
                    }
                    _ => {
                        let d = *self.r.pick(&c);
                        let i = self.r.below(c.len() as u64 + 1) as usize;
                        c.insert(i, d);
                    }
                }
                let y = self.apis();
                let h = self.h();
                let op = self.op("spawn", h, c, y);
                self.emit(op);
            }
            "despawn" => {
                let Some(h) = self.someone() else { return };
                let op = self.op("despawn", h, vec![], 0);
                self.emit(op);
            }
            "despawncomp" => {
                let cs: Vec<Ref> = self.live.iter().filter(|(_, e)| e.carried || e.kind > 0).map(|(h, _)| *h).collect();
                if cs.is_empty() {
                    self.tag();
                    return;
                }
                let h = *self.r.pick(&cs);
                let op = self.op("despawn", h, vec![], 0);
                self.emit(op);
            }
            "despawnstale" => {
                let Some(h) = self.stale() else { return };
                let op = self.op("despawn", h, vec![], 0);
                self.emit(op);
            }
            "add" => {
                let Some(h) = self.someone() else { return };
                let Some(e) = self.live.get(&h).cloned() else { return };
                for _ in 0..6 {
                    let c = self.any_comp();
                    if !e.comps.contains(&c) && (matches!(c, Ref::T(_)) || self.live.contains_key(&c)) {
                        let dataless = matches!(c, Ref::E(_)) && self.live.get(&c).is_some_and(|e| e.kind == 0);
                        let y = if dataless { self.r.range(1, 2) } else { self.r.chance(self.dynp, 10) as u64 };
                        let op = self.op("add", h, vec![c], y);
                        self.emit(op);
                        break;
                    }
                }
            }
            "addbad" => {
                let h = if self.r.chance(1, 2) { self.stale() } else { self.someone() };
                let Some(h) = h else { return };
                let present: Vec<Ref> = self.live.get(&h).map(|e| e.comps.iter().copied().collect()).unwrap_or_default();
                let c = match self.r.below(4) {
                    0 | 1 if !present.is_empty() => *self.r.pick(&present),
                    2 => match self.stale() {
                        Some(s) => s,
                        None => self.any_comp(),
                    },
                    _ => self.any_comp(),
                };
                let y = self.r.below(3);
                let op = self.op("add", h, vec![c], y);
                self.emit(op);
            }
            "remove" => {
                let Some(h) = self.someone() else { return };
                let present: Vec<Ref> = self.live.get(&h).map(|e| e.comps.iter().copied().collect()).unwrap_or_default();
                if present.is_empty() {
                    return self.step("add");
                }
                let c = *self.r.pick(&present);
                let y = self.r.chance(self.dynp, 10) as u64;
                let op = self.op("remove", h, vec![c], y);
                self.emit(op);
            }
            "removebad" => {
                let h = if self.r.chance(1, 2) { self.stale() } else { self.someone() };
                let Some(h) = h else { return };
                let c = match self.stale() {
                    Some(s) if self.r.chance(1, 3) => s,
                    _ => self.any_comp(),
                };
                let y = self.r.below(2);
                let op = self.op("remove", h, vec![c], y);
                self.emit(op);
            }
            "write" => {
                let Some(h) = self.someone() else { return };
                let present: Vec<Ref> = self.live.get(&h).map(|e| e.comps.iter().copied().collect()).unwrap_or_default();
                let c = if present.is_empty() || self.r.chance(1, 12) { self.any_comp() } else { *self.r.pick(&present) };
                let y = self.r.below(2);
                let op = self.op("write", h, vec![c], y);
                self.emit(op);
            }
            "q" => {
                let q = self.qop(false);
                self.items.push(Item::Q(q));
            }
            "par" => self.par(),
            "reg" => {
                let k = self.r.below(NT as u64) as u8;
                let op = self.op("reg", Ref::T(k), vec![], 0);
                self.live.entry(Ref::T(k)).or_insert(GEnt { comps: BTreeSet::new(), kind: 2, carried: false });
                self.push(op);
            }
            "repeat" => {
                // a client sends an earlier request again
                let ops: Vec<Op> = self
                    .items
                    .iter()
                    .rev()
                    .take(12)
                    .filter_map(|i| match i {
                        Item::Op(o) if matches!(o.code.as_str(), "add" | "remove" | "despawn" | "write") => Some(o.clone()),
                        _ => None,
                    })
                    .collect();
                if !ops.is_empty() {
                    let mut o = self.r.pick(&ops).clone();
                    o.dp = 0;
                    self.pay += 1;
                    o.x = self.pay;
                    self.emit(o);
                }
            }
            "delay" => {
                // a request that arrives later, when its target may be gone
                let Some(h) = self.someone() else { return };
                let c = self.any_comp();
                let code = *self.r.pick(&["add", "remove", "despawn", "write"]);
                let y = self.r.below(2);
                let op = self.op(code, h, vec![c], y);
                self.held.push((self.items.len(), op));
            }
            _ => (),
        }
    }

    fn qspec(&mut self, hot: bool) -> QSpec {
        if self.wide && self.r.chance(1, 3) {
            if self.r.chance(1, 2) {
                let long: Vec<u16> = (0..QUERIES.len() as u16).filter(|i| QUERIES[*i as usize].len() >= 7).collect();
                return QSpec::S(*self.r.pick(&long));
            }
            let mut h: Vec<Ref> = self.types.iter().map(|k| Ref::T(*k)).chain(self.tags.iter().copied()).collect();
            let n = self.r.range(6, 10);
            let mut v: Vec<(char, Ref)> = vec![];
            while (v.len() as u64) < n && !h.is_empty() {
                let i = self.r.below(h.len() as u64) as usize;
                let c = h.swap_remove(i);
                v.push((if self.r.chance(1, 4) { 'M' } else { 'R' }, c));
            }
            return QSpec::D(v);
        }
        let fight = hot && !self.hot.is_empty() && self.r.chance(3, 4);
        if fight && self.r.chance(1, 2) {
            let hot: Vec<u8> = self.hot.iter().filter_map(|h| if let Ref::T(k) = h { Some(*k) } else { None }).collect();
            let fit: Vec<u16> = (0..QUERIES.len() as u16)
                .filter(|i| {
                    let mut any = false;
                    QUERIES[*i as usize].iter().all(|a| match a {
                        Acc::E => true,
                        Acc::R(k) | Acc::M(k) => {
                            any |= hot.contains(k);
                            hot.contains(k) || self.types.contains(k)
                        }
                    }) && any
                })
                .collect();
            if !fit.is_empty() {
                return QSpec::S(*self.r.pick(&fit));
            }
        }
        if fight {
            let mut h = self.hot.clone();
            let mut v = vec![];
            let n = self.r.range(1, h.len() as u64);
            for _ in 0..n {
                let i = self.r.below(h.len() as u64) as usize;
                let c = h.swap_remove(i);
                v.push((if self.r.chance(3, 5) { 'M' } else { 'R' }, c));
                if self.r.chance(1, 5) {
                    v.push(('E', Ref::T(0)));
                }
            }
            if self.r.chance(1, 6) {
                let c = self.any_comp();
                if !v.iter().any(|x| x.1 == c && x.0 != 'E') {
                    v.push(('R', c));
                }
            }
            v.truncate(6);
            return QSpec::D(v);
        }
        if self.r.chance(1, 2) {
            // static, preferably over what is in play
            let mut best = 0u16;
            for _ in 0..8 {
                let i = self.r.below(QUERIES.len() as u64) as u16;
                best = i;
                let fit = QUERIES[i as usize].iter().all(|a| match a {
                    Acc::E => true,
                    Acc::R(k) | Acc::M(k) => self.types.contains(k) || self.live.contains_key(&Ref::T(*k)),
                });
                if fit && (!hot || QUERIES[i as usize].iter().any(|a| !matches!(a, Acc::E))) {
                    break;
                }
            }
            return QSpec::S(best);
        }
        let n = 1 + self.r.weighted(&[20, 30, 25, 12, 8, 5, 3, 2, 2, 2]);
        let mut v = vec![];
        let mut used: Vec<Ref> = vec![];
        for _ in 0..n {
            if self.r.chance(1, 4) {
                v.push(('E', Ref::T(0)));
                continue;
            }
            let c = self.any_comp();
            if used.contains(&c) && !self.r.chance(1, 20) {
                continue;
            }
            used.push(c);
            v.push((if self.r.chance(1, 2) { 'M' } else { 'R' }, c));
        }
        if v.is_empty() {
            v.push(('E', Ref::T(0)));
        }
        QSpec::D(v)
    }

    fn qop(&mut self, par: bool) -> QOp {
        let q = self.qspec(par);
        let mode = if par { self.r.weighted(&[60, 15, 15, 10]) } else { self.r.weighted(&[55, 20, 25, 0]) } as u8;
        self.pay += 1;
        let x = if self.r.chance(1, 2) && self.prop != "C15" { mix(self.pay) >> 20 | 1 << 40 } else { 0 };
        let pr = match self.prop {
            "C08" => 3,
            "C04" | "C06" | "C07" | "C01" => 14,
            "C15" => 0,
            _ => 40,
        };
        let panic = if pr > 0 && self.r.chance(1, pr) { self.r.range(1, 4) as u32 } else { 0 };
        let mut targets = vec![];
        if mode == 2 {
            for _ in 0..self.r.range(1, 5) {
                let t = if self.r.chance(1, 5) { self.stale() } else { self.someone() };
                if let Some(t) = t {
                    targets.push(t);
                }
            }
        }
        let stop = if self.r.chance(1, 6) { self.r.range(1, 4) as u32 } else { 0 };
        let stall = if par && self.r.chance(1, 5) { self.r.range(1, 12) as u32 } else { 0 };
        QOp { q, mode, x, stop, panic, stall, nest: false, af: 0, targets }
    }

    fn par(&mut self) {
        let n = self.r.range(2, if self.r.clone().chance(1, 5) { 7 } else { 4 }) as usize;
        let mut threads = vec![];
        let carried: Vec<Ref> = self.live.iter().filter(|(_, e)| e.carried).map(|(h, _)| *h).collect();
        self.hot.clear();
        if !carried.is_empty() && self.r.chance(5, 6) {
            for _ in 0..self.r.range(1, 3) {
                let c = *self.r.pick(&carried);
                if !self.hot.contains(&c) {
                    self.hot.push(c);
                }
            }
        }
        for _ in 0..n {
            let k = self.r.range(1, 4);
            let mut t: Vec<QOp> = vec![];
            for i in 0..k {
                let mut q = self.qop(true);
                q.nest = i > 0 && self.r.chance(1, 4) && self.prop != "C15";
                t.push(q);
            }
            threads.push(t);
        }
        if self.r.chance(1, 3) {
            // the same components in opposite orders
            let h: Vec<Ref> = self.types.iter().map(|k| Ref::T(*k)).collect();
            let a = *self.r.pick(&h);
            let b = *self.r.pick(&h);
            if a != b {
                let m = |r: &mut Rng| if r.chance(2, 3) { 'M' } else { 'R' };
                let q1 = QSpec::D(vec![(m(&mut self.r), a), (m(&mut self.r), b)]);
                let q2 = QSpec::D(vec![(m(&mut self.r), b), (m(&mut self.r), a)]);
                threads[0][0].q = q1;
                threads[1][0].q = q2;
            }
        }
        let s = self.r.next() >> 20;
        let sched = match self.r.below(4) {
            0 => Strategy::Uniform(s),
            1 => Strategy::Sticky(s, self.r.range(2, 8) as u32),
            _ => Strategy::Pct(s, self.r.range(1, 6) as u32),
        };
        let wpref = self.r.chance(1, 2);
        // (another stream: what else the plan holds does not depend on it)
        let pre = match mix(s ^ 0x9E3) {
            x if self.prop == "C15" || x % 2 == 0 => 0,
            x => (x >> 8) << 16 >> 16 << 16 | [3, 10, 30, 100, 300, 1000][(x >> 1) as usize % 6],
        };
        self.items.push(Item::Par { wpref, pre, sched, threads });
    }
}
