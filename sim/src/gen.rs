//! The seeded scheduler: decides which task acts next, on what, and which fault strikes when.
use crate::comp::*;
use crate::exec::*;
use crate::model::*;
use crate::rng::*;

pub struct Gen {
    r: Rng,
    w: Vec<u64>,
    mem: Vec<Vec<u64>>,
    dmem: Vec<Vec<u64>>,
    next_label: u64,
    next_did: u64,
    next_world: u64,
    pub steps: usize,
    kinds: Vec<usize>,
    faults: bool,
    max_pop: usize,
    force: Vec<Step>,
    max_worlds: usize,
    maxed: bool,
    big: bool,
}

fn base(op: Op) -> u64 {
    match op {
        Op::neww => 3, Op::create => 140, Op::createwc => 60, Op::destroy => 100, Op::destroyd => 30, Op::iterd => 40, Op::clone => 8, Op::dropw => 4, Op::clear => 20, Op::preset => 4,
        Op::fill => 10, Op::drain => 20, Op::probe => 70, Op::probed => 50, Op::find => 40, Op::findd => 20, Op::iter => 50, Op::access => 50, Op::audit => 12, Op::todirect => 40,
        Op::forge => 40, Op::sneaky => 20, Op::arm => 25, Op::bp => 30, Op::unwinddrop => 2, Op::cloneall => 0,
    }
}
/// Percent multipliers per property under check.
fn boost(p: Props, op: Op) -> u64 {
    match (p, op) {
        (C01, Op::probe) => 300, (C01, Op::destroy | Op::drain) => 180, (C01, Op::todirect) => 150,
        (C02, Op::access) => 300, (C02, Op::iter) => 250, (C02, Op::destroy) => 150, (C02, Op::bp) => 200,
        (C03, Op::forge) => 1200, (C03, Op::neww) => 300, (C03, Op::probe | Op::probed) => 200, (C03, Op::bp | Op::access) => 30,
        (C04, Op::clone) => 300, (C04, Op::dropw | Op::unwinddrop) => 400, (C04, Op::createwc) => 150, (C04, Op::fill) => 150,
        (C06, Op::iter) => 500, (C06, Op::access) => 400, (C06, Op::sneaky) => 200,
        (C07, Op::iterd) => 700, (C07, Op::sneaky) => 300,
        (C08, Op::create | Op::destroy) => 150, (C08, Op::preset) => 2000, (C08, Op::drain) => 400, (C08, Op::fill) => 300, (C08, Op::clone) => 200, (C08, Op::probe) => 50,
        (C09, Op::todirect) => 500, (C09, Op::probed) => 400, (C09, Op::findd) => 300, (C09, Op::destroyd) => 200, (C09, Op::preset) => 500, (C09, Op::drain) => 200, (C09, Op::clone) => 200,
        (C10, Op::arm) => 800, (C10, Op::preset) => 800, (C10, Op::clone) => 300, (C10, Op::dropw | Op::unwinddrop) => 500, (C10, Op::bp) => 200, (C10, Op::iterd) => 200, (C10, Op::drain) => 150,
        (C11, Op::bp) => 1500, (C11, Op::clone) => 200, (C11, Op::arm) => 200,
        (C12, Op::create | Op::createwc) => 150, (C12, Op::fill) => 700, (C12, Op::drain) => 400, (C12, Op::neww | Op::dropw) => 500, (C12, Op::probe | Op::probed | Op::bp) => 40,
        (C13, Op::clone) => 800, (C13, Op::fill) => 400, (C13, Op::todirect) => 200, (C13, Op::dropw) => 200, (C13, Op::preset) => 300,
        (C17, Op::clear) => 300, (C17, Op::iterd) => 300, (C17, Op::destroyd) => 200, (C17, Op::clone) => 200, (C17, Op::arm) => 150, (C17, Op::preset) => 300, (C17, Op::sneaky) => 200,
        (C19, Op::forge) => 200, (C19, Op::clone) => 200,
        _ => 100,
    }
}

impl Gen {
    pub fn new(prop: Props, seed: u64, kinds: &[usize], steps: usize) -> Gen {
        let mut r = Rng::new(mix2(seed, prop as u64));
        let mut w: Vec<u64> = OPS.iter().map(|o| base(o.1) * boost(prop, o.1)).collect();
        // Swarm: every seed leaves out some kinds of operation and favours others.
        for (i, x) in w.iter_mut().enumerate() {
            let op = OPS[i].1;
            let hot = boost(prop, op) > 150;
            if !matches!(op, Op::create | Op::neww) && !hot && r.chance(1, 6) { *x = 0; }
            if r.chance(1, 6) { *x *= 4; }
        }
        let faults = match prop { C10 => true, C11 => r.chance(3, 5), C12 | C04 => r.chance(2, 5), _ => r.chance(1, 2) };
        let z = |o: Op| OPS.iter().position(|x| x.1 == o).unwrap();
        if !faults { w[z(Op::arm)] = 0; w[z(Op::unwinddrop)] = 0; }
        // Borrow phases provoke conflict panics; without faults they are left out half of the time.
        if !faults && prop != C11 && r.chance(1, 2) { w[z(Op::bp)] = 0; }
        if prop != C17 { w[z(Op::clear)] /= 4; }
        let nt = 1 + r.idx(5);
        let given = steps > 0;
        let steps = if given { steps } else { *r.pick(&[30usize, 60, 90, 140, 200, 320]) };
        let max_pop = *r.pick(&[6usize, 20, 50, 120]);
        // A few seeds are much larger, a few much longer than the rest.
        let scale = if given { 0 } else { r.below(96) };
        let (steps, max_pop, big) = match scale { 1 => (steps.min(60), *r.pick(&[700usize, 2500]), true), 2 => (steps * 8, max_pop.min(20), false), _ => (steps, max_pop, false) };
        let max_worlds = match prop { C03 | C13 => 2 + r.idx(3), _ => 1 + r.idx(3) };
        Gen { r, w, mem: vec![vec![]; nt], dmem: vec![vec![]; nt], next_label: 1, next_did: 1, next_world: 0, steps, kinds: kinds.to_vec(), faults, max_pop, force: vec![], max_worlds, maxed: false, big }
    }

    fn neww(&mut self) -> Step {
        let id = self.next_world;
        self.next_world += 1;
        let kind = *self.r.pick(&self.kinds);
        let form = *self.r.pick(&[0u64, 0, 0, 1, 2, 3]);
        Step { task: 0, op: Op::neww, a: vec![id, kind as u64, form, self.r.next()] }
    }

    pub fn next(&mut self, ex: &Exec) -> Step {
        if let Some(s) = self.force.pop() { return s; }
        if ex.worlds.is_empty() { return self.neww(); }
        let tot: u64 = self.w.iter().sum();
        for _ in 0..200 {
            let mut x = self.r.below(tot);
            let mut i = 0;
            while x >= self.w[i] { x -= self.w[i]; i += 1; }
            if let Some(s) = self.try_op(OPS[i].1, ex) { return s; }
        }
        self.neww()
    }

    fn pick_label(&mut self, t: usize, sl: &Slot) -> Option<u64> {
        let live = |g: &mut Gen| -> Option<u64> {
            let n: usize = sl.m.len();
            if n == 0 { return None; }
            let mut k = g.r.idx(n);
            for a in &sl.m.archs { if k < a.live.len() { return Some(a.live[k]); } k -= a.live.len(); }
            None
        };
        match self.r.below(10) {
            0..=3 => live(self),
            4..=7 => { let m = &self.mem[t]; if m.is_empty() { None } else { let n = m.len(); let j = if self.r.chance(1, 2) { n - 1 - self.r.idx(n.min(6)) } else { self.r.idx(n) }; Some(self.mem[t][j]) } }
            _ => if self.next_label > 1 { Some(1 + self.r.below(self.next_label - 1)) } else { None },
        }
    }
    fn pick_did(&mut self, t: usize) -> Option<u64> {
        let m = &self.dmem[t];
        if !m.is_empty() && self.r.chance(3, 4) { let n = m.len(); let j = if self.r.chance(2, 3) { n - 1 - self.r.idx(n.min(5)) } else { self.r.idx(n) }; return Some(self.dmem[t][j]); }
        if self.next_did > 1 { Some(1 + self.r.below(self.next_did - 1)) } else { None }
    }

    fn try_op(&mut self, op: Op, ex: &Exec) -> Option<Step> {
        let t = self.r.idx(self.mem.len());
        let ids: Vec<u64> = ex.worlds.keys().copied().collect();
        let w = ids[self.r.idx(ids.len())];
        let sl = &ex.worlds[&w];
        let na = sl.m.archs.len() as u64;
        let salt = self.r.next();
        // Some seeds concentrate on few archetypes so positions are reused a lot.
        let arch = if self.max_pop <= 20 && self.r.chance(3, 4) { 0 } else { self.r.below(na) };
        let step = |task: usize, a: Vec<u64>| Some(Step { task: task as u8, op, a });
        match op {
            Op::neww => { if ex.worlds.len() >= self.max_worlds { None } else { Some(self.neww()) } }
            Op::create | Op::createwc | Op::fill => {
                if sl.m.len() >= self.max_pop { return None; }
                let l = self.next_label;
                let n = match op { Op::fill => if self.big { 3000 } else { 600 }, _ => if self.big { *self.r.pick(&[1u64, 1, 2, 9, 70, 300, 1100]) } else { *self.r.pick(&[1u64, 1, 1, 1, 2, 3, 5, 9]) } };
                self.next_label += n + 1;
                for i in 0..n.min(20) { self.mem[t].push(l + i); }
                if self.r.chance(1, 4) { let t2 = self.r.idx(self.mem.len()); self.mem[t2].push(l); }
                if op == Op::fill { if sl.m.archs[arch as usize].cap > if self.big { 2900 } else { 80 } { return None; } step(t, vec![w, arch, l, salt]) } else { step(t, vec![w, arch, l, n, salt]) }
            }
            Op::destroy | Op::probe | Op::find => { let l = self.pick_label(t, sl)?; step(t, vec![w, l, salt]) }
            Op::destroyd | Op::probed | Op::findd => { let d = self.pick_did(t)?; step(t, vec![w, d, salt]) }
            Op::todirect => { let l = self.pick_label(t, sl)?; let d = self.next_did; self.next_did += 1; self.dmem[t].push(d); if self.r.chance(1, 4) { let t2 = self.r.idx(self.mem.len()); self.dmem[t2].push(d); } step(t, vec![w, l, d, salt]) }
            Op::iter | Op::iterd => { let q = self.r.below(sl.m.meta.queries.len() as u64); let d = self.next_did; self.next_did += 12; self.dmem[t].push(d); self.dmem[t].push(d + 1); step(t, vec![w, q, d, salt]) }
            Op::sneaky => { let s = self.r.below(8); let l = self.next_label; self.next_label += 16; self.mem[t].push(l + 1); self.mem[t].push(l + 2); let d = self.next_did; self.next_did += 12; step(t, vec![w, s, l, d, salt]) }
            Op::access => step(t, vec![w, arch, salt]),
            Op::drain => { if sl.m.archs[arch as usize].live.is_empty() { return None; } let n = if self.r.chance(1, 3) { if self.big { 4000 } else { 1000 } } else if self.big { 1 + self.r.below(600) } else { 1 + self.r.below(6) }; step(t, vec![w, arch, n, salt]) }
            Op::audit | Op::forge => step(t, vec![w, salt]),
            Op::clear => { let a = if self.r.chance(1, 2) { na } else { self.r.below(na) }; step(t, vec![w, a, salt]) }
            Op::clone => { if ex.worlds.len() >= self.max_worlds + 1 { return None; } let id = self.next_world; self.next_world += 1; step(t, vec![w, id, salt]) }
            Op::dropw | Op::unwinddrop => { if ex.worlds.len() < 2 && self.r.chance(3, 4) { return None; } step(t, vec![w, salt]) }
            Op::bp => { let n = 1 + self.r.below(24); step(t, vec![w, n, u64::MAX, salt]) }
            Op::preset => {
                // Age one archetype to the end of its generations, keeping handles from its youth, then use it.
                let a = arch;
                let mut slot = u32::MAX as u64 - *self.r.pick(&[0u64, 1, 1, 2, 3, 6]);
                let mut av = u32::MAX as u64 - *self.r.pick(&[0u64, 1, 2, 4, 9, 40, 1000, 1000]);
                // Or to just about a power of two, so that its low bits look young again.
                if self.r.chance(2, 5) { slot = (1u64 << *self.r.pick(&[8, 16, 20, 24, 28, 31])) + self.r.below(5) - 1; }
                if self.r.chance(2, 5) { av = (1u64 << *self.r.pick(&[8, 16, 20, 24, 28, 31])) + self.r.below(12) - 4; }
                if self.big && sl.m.archs[a as usize].live.len() > 900 { return None; }
                let cur = sl.m.archs[a as usize].aver;
                if cur + 2000 > u32::MAX as u64 { return None; }
                if av < cur { av = cur + 300; }
                let mut seq = vec![Step { task: t as u8, op: Op::drain, a: vec![w, a, 1000, salt] }, Step { task: t as u8, op: Op::preset, a: vec![w, a, slot, av, salt] }];
                if self.r.chance(1, 2) {
                    let l = self.next_label; self.next_label += 3; let d = self.next_did; self.next_did += 2;
                    self.mem[t].push(l); self.dmem[t].push(d);
                    seq.insert(0, Step { task: t as u8, op: Op::create, a: vec![w, a, l, 2, mix(salt ^ 1)] });
                    seq.insert(1, Step { task: t as u8, op: Op::todirect, a: vec![w, l, d, mix(salt ^ 2)] });
                }
                for i in 0..3 + self.r.below(5) {
                    let l = self.next_label;
                    let n = 1 + self.r.below(2);
                    self.next_label += n + 1;
                    self.mem[t].push(l);
                    seq.push(Step { task: t as u8, op: Op::create, a: vec![w, a, l, n, mix2(salt, i)] });
                    if self.r.chance(2, 3) { let d = self.next_did; self.next_did += 1; self.dmem[t].push(d); seq.push(Step { task: t as u8, op: Op::todirect, a: vec![w, l, d, mix2(salt, 100 + i)] }); }
                    match self.r.below(4) {
                        0 => { let q = self.r.below(sl.m.meta.queries.len() as u64); let d = self.next_did; self.next_did += 12; seq.push(Step { task: t as u8, op: Op::iterd, a: vec![w, q, d, mix2(salt, 200 + i)] }); }
                        1 => seq.push(Step { task: t as u8, op: Op::drain, a: vec![w, a, 1000, mix2(salt, 300 + i)] }),
                        _ => seq.push(Step { task: t as u8, op: Op::destroy, a: vec![w, l, mix2(salt, 400 + i)] }),
                    }
                    if self.r.chance(1, 3) { seq.push(Step { task: t as u8, op: Op::audit, a: vec![w, mix2(salt, 500 + i)] }); }
                }
                seq.push(Step { task: t as u8, op: Op::audit, a: vec![w, mix2(salt, 999)] });
                self.maxed = true;
                seq.reverse();
                let first = seq.pop().unwrap();
                self.force = seq;
                Some(first)
            }
            Op::arm => {
                if !self.faults { return None; }
                let k = 1 + match self.r.below(4) { 0 => 0, 1 => self.r.below(3), 2 => self.r.below(8), _ => self.r.below(40) };
                let (kind, follow): (u8, &[Op]) = match self.r.below(8) {
                    0 | 1 => (FK_CLOSURE, &[Op::iter, Op::iterd, Op::find, Op::bp, Op::sneaky]),
                    2 | 3 => (FK_CLONE, &[Op::clone]),
                    4..=6 => (FK_DROP, &[Op::destroy, Op::iterd, Op::iterd, Op::dropw, Op::destroyd, Op::drain]),
                    _ => (FK_INTO, &[Op::create, Op::createwc]),
                };
                let f = *self.r.pick(follow);
                let s = self.try_op(f, ex)?;
                self.force.push(s);
                step(t, vec![kind as u64, k])
            }
            Op::cloneall => None,
        }
    }
}
