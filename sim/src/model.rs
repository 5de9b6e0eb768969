//! The reference model of a world: maps, no cleverness.
use crate::plan::Ref;
use crate::values::*;
use arche_tape::EcsId;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Ent {
    pub id: EcsId,
    pub kind: CKind,
    pub comps: BTreeMap<u64, Val>,
    /// some entity has carried this id as a component
    pub carried: bool,
    pub ty: Option<u8>,
}

#[derive(Default)]
pub struct Model {
    pub ents: BTreeMap<u64, Ent>,
    pub ever: BTreeSet<u64>,
    pub dead: Vec<EcsId>,
    /// who lives in which slot
    pub slots: BTreeMap<usize, u64>,
    pub handles: BTreeMap<u32, EcsId>,
    pub types: [Option<EcsId>; NT],
    pub old_types: [Option<EcsId>; NT],
    /// upper bound on the number of slots ever needed at once
    pub peak: usize,
    /// slots lost to builders that were forgotten
    pub lost: usize,
}

/// What the destructors are expected to do during one operation
#[derive(Default, Clone)]
pub struct Drops {
    pub insts: Vec<u32>,
    pub z: [i64; NT],
}
impl Drops {
    pub fn add(&mut self, k: CKind, v: Val) {
        if k.tracked() {
            self.insts.push(v.inst);
        }
        if let Some(z) = k.zdrop() {
            self.z[z] += 1;
        }
    }
}

impl Model {
    pub fn resolve(&self, r: Ref) -> Option<EcsId> {
        match r {
            Ref::E(n) => self.handles.get(&n).copied(),
            Ref::T(k) => self.types[k as usize].or(self.old_types[k as usize]),
        }
    }
    pub fn alive(&self, id: EcsId) -> bool {
        self.ents.contains_key(&id.as_u64())
    }
    pub fn ent(&self, id: EcsId) -> Option<&Ent> {
        self.ents.get(&id.as_u64())
    }
    pub fn kind(&self, id: EcsId) -> Option<CKind> {
        self.ent(id).map(|e| e.kind)
    }
    pub fn has(&self, e: EcsId, c: EcsId) -> bool {
        self.ent(e).is_some_and(|x| x.comps.contains_key(&c.as_u64()))
    }
    pub fn kind_of(&self, c: u64) -> CKind {
        self.ents.get(&c).map(|e| e.kind).unwrap_or(CKind::Tag)
    }
    pub fn carriers(&self, c: EcsId) -> Vec<u64> {
        if !self.ent(c).is_some_and(|e| e.carried) {
            return vec![];
        }
        self.ents.iter().filter(|(_, e)| e.comps.contains_key(&c.as_u64())).map(|(k, _)| *k).collect()
    }
    pub fn insert(&mut self, id: EcsId, kind: CKind, comps: Vec<(EcsId, Val)>, ty: Option<u8>) {
        let mut m = BTreeMap::new();
        for (c, v) in comps {
            m.insert(c.as_u64(), v);
            if let Some(e) = self.ents.get_mut(&c.as_u64()) {
                e.carried = true;
            }
        }
        self.ents.insert(id.as_u64(), Ent { id, kind, comps: m, carried: false, ty });
        self.ever.insert(id.as_u64());
        self.slots.insert(id.uindex(), id.as_u64());
        self.peak = self.peak.max(self.ents.len());
    }
    pub fn add(&mut self, e: EcsId, c: EcsId, v: Val) {
        self.ents.get_mut(&e.as_u64()).unwrap().comps.insert(c.as_u64(), v);
        if let Some(e) = self.ents.get_mut(&c.as_u64()) {
            e.carried = true;
        }
    }
    pub fn remove(&mut self, e: EcsId, c: EcsId, d: &mut Drops) {
        let k = self.kind_of(c.as_u64());
        if let Some(v) = self.ents.get_mut(&e.as_u64()).unwrap().comps.remove(&c.as_u64()) {
            d.add(k, v);
        }
    }
    pub fn despawn(&mut self, id: EcsId, d: &mut Drops) {
        let key = id.as_u64();
        for c in self.carriers(id) {
            let e = self.ents[&c].id;
            self.remove(e, id, d);
        }
        let comps = self.ents[&key].comps.clone();
        for (c, v) in comps {
            d.add(self.kind_of(c), v);
        }
        if let Some(t) = self.ents[&key].ty {
            self.types[t as usize] = None;
            self.old_types[t as usize] = Some(id);
        }
        self.ents.remove(&key);
        self.slots.remove(&id.uindex());
        self.dead.push(id);
    }
    /// Everything the world still holds
    pub fn all_drops(&self) -> Drops {
        let mut d = Drops::default();
        for e in self.ents.values() {
            for (c, v) in &e.comps {
                d.add(self.kind_of(*c), *v);
            }
        }
        d
    }
    /// Entities that have all of `comps`
    pub fn matching(&self, comps: &[u64]) -> Vec<u64> {
        self.ents.iter().filter(|(_, e)| comps.iter().all(|c| e.comps.contains_key(c))).map(|(k, _)| *k).collect()
    }
    /// Abstract state: entities by order of creation are renamed away, values dropped
    pub fn shape(&self) -> u64 {
        let mut h = 0u64;
        for e in self.ents.values() {
            let mut x = 7u64;
            for c in e.comps.keys() {
                x = crate::rng::mix(x ^ c);
            }
            h = h.wrapping_add(crate::rng::mix(x ^ 0x55));
        }
        crate::rng::mix(h ^ self.ents.len() as u64)
    }
}
