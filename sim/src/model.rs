//! The reference model: what a world must contain, kept independently of the library.
use crate::api::*;
use crate::rng::*;
use gecs::prelude::*;

pub type Raw = (u32, u32);
pub type Props = u32;
macro_rules! props { ($($n:ident = $i:literal),*) => { $(pub const $n: Props = 1 << $i;)* pub const PROP_NAMES: &[(&str, Props)] = &[$((stringify!($n), $n)),*]; } }
props!(C01 = 1, C02 = 2, C03 = 3, C04 = 4, C06 = 6, C07 = 7, C08 = 8, C09 = 9, C10 = 10, C11 = 11, C12 = 12, C13 = 13, C17 = 17, C19 = 19);

pub fn prop_list(p: Props) -> String {
    PROP_NAMES.iter().filter(|x| p & x.1 != 0).map(|x| x.0).collect::<Vec<_>>().join(",")
}

#[derive(Clone)]
pub struct MEnt { pub label: u64, pub h: EntityAny, pub arch: usize, pub vals: Vec<u64>, pub iids: Vec<u64> }

/// A direct handle this world (or the world it was cloned from, before that) has issued.
#[derive(Clone, Copy)]
pub struct Mint { pub did: u64, pub h: EntityDirectAny, pub arch: usize, pub label: u64, pub removals: u64, pub structs: u64, pub ancient: bool, pub by_iterd: bool }

#[derive(Clone, Default)]
pub struct MArch {
    pub live: Vec<u64>,
    pub cap: usize,
    pub cap0: usize,
    pub creations: u64,
    pub removals: u64,
    pub structs: u64,
    /// What the archetype's generation counter must be if it has been preset; else an estimate.
    pub aver: u64,
    pub created: Vec<Raw>,
    pub destroyed: Vec<Raw>,
    pub addr: Vec<usize>,
    pub cloned: bool,
}

#[derive(Clone)]
pub struct MWorld {
    pub id: u64,
    pub kind: usize,
    pub root: u64,
    pub meta: &'static WorldMeta,
    pub archs: Vec<MArch>,
    pub ents: Map<u64, MEnt>,
    pub by_raw: Map<Raw, u64>,
    pub issued: Set<Raw>,
    pub mints: Map<u64, Mint>,
    pub wrapped: bool,
    pub panicked: bool,
    pub lineage: bool,
}

impl MWorld {
    pub fn new(id: u64, kind: usize, meta: &'static WorldMeta) -> Self {
        MWorld { id, kind, root: id, meta, archs: (0..meta.archs.len()).map(|_| MArch { aver: 1, ..MArch::default() }).collect(), ents: Map::default(), by_raw: Map::default(),
            issued: Set::default(), mints: Map::default(), wrapped: false, panicked: false, lineage: false }
    }
    pub fn len(&self) -> usize { self.ents.len() }
    pub fn arch_of_id(&self, id: u8) -> Option<usize> { self.meta.ids.iter().position(|x| *x == id) }
    pub fn insert(&mut self, e: MEnt) {
        let a = &mut self.archs[e.arch];
        a.live.push(e.label);
        a.creations += 1;
        a.structs += 1;
        a.created.push(e.h.raw());
        self.by_raw.insert(e.h.raw(), e.label);
        self.issued.insert(e.h.raw());
        self.ents.insert(e.label, e);
    }
    pub fn remove(&mut self, label: u64) -> MEnt {
        let e = self.ents.remove(&label).unwrap();
        self.by_raw.remove(&e.h.raw());
        let a = &mut self.archs[e.arch];
        let i = a.live.iter().position(|x| *x == label).unwrap();
        a.live.swap_remove(i);
        a.removals += 1;
        a.structs += 1;
        a.aver += 1;
        a.destroyed.push(e.h.raw());
        e
    }
    pub fn mint(&mut self, did: u64, h: EntityDirectAny, label: u64, by_iterd: bool) {
        let arch = self.ents[&label].arch;
        let a = &self.archs[arch];
        self.mints.insert(did, Mint { did, h, arch, label, removals: a.removals, structs: a.structs, ancient: false, by_iterd });
    }
    /// The entity of `arch` that owns the component instance `iid`.
    pub fn by_iid(&self, arch: usize, iid: u64) -> Option<u64> {
        self.archs[arch].live.iter().copied().find(|l| self.ents[l].iids.contains(&iid))
    }
    /// May the default configuration panic when destroying this entity (a generation is exhausted)?
    pub fn exhausted(&self, label: u64) -> bool {
        let e = &self.ents[&label];
        e.h.raw().1 == u32::MAX || self.archs[e.arch].aver >= u32::MAX as u64
    }
}
