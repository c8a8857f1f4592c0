//! Millions of entities with values in one archetype.
use crate::comp::*;
use crate::exec::*;
use crate::model::*;
use crate::rng::*;
use crate::scen::{raw64, LIMIT, S};

mod dp {
    use gecs::prelude::*;
    #[derive(Clone)]
    pub struct DVal(pub u32);
    /// Determined by the entity's value: a mixed-up pair of columns shows.
    #[derive(Clone, PartialEq, Debug)]
    pub struct DOdd(pub [u8; 5]);
    ecs_world! {
        ecs_name!(WorldDeep);
        ecs_archetype!(ArchDa, DOdd, DVal);
        #[archetype_id(250)]
        ecs_archetype!(ArchDb, DVal);
    }
}
use dp::*;
use gecs::prelude::*;
fn odd(v: u32) -> DOdd { let k = mix(v as u64 ^ 0xABCD).to_le_bytes(); DOdd([k[0], k[1], k[2], k[3], k[4]]) }

/// What the world holds: per slot, the generation (0 = free) and the value; and the live handles.
struct DeepM { slots: Vec<(u32, u32)>, live: Vec<u64>, pos: Vec<u32>, issued_dup: bool, last: Vec<u32> }
impl DeepM {
    fn slot(x: u64) -> usize { (x >> 40) as usize }
    fn add(&mut self, x: u64, v: u32) {
        let i = Self::slot(x);
        if i >= self.slots.len() { self.slots.resize(i + 1, (0, 0)); self.pos.resize(i + 1, 0); self.last.resize(i + 1, 0); }
        self.issued_dup |= self.slots[i].0 != 0 || self.last[i] == x as u32;
        self.slots[i] = (x as u32, v);
        self.last[i] = x as u32;
        self.pos[i] = self.live.len() as u32;
        self.live.push(x);
    }
    fn del(&mut self, x: u64) -> u32 {
        let i = Self::slot(x);
        let p = self.pos[i] as usize;
        self.live.swap_remove(p);
        if let Some(y) = self.live.get(p) { let j = Self::slot(*y); self.pos[j] = p as u32; }
        self.slots[i].0 = 0;
        self.slots[i].1
    }
    fn val(&self, x: u64) -> Option<u32> { self.slots.get(Self::slot(x)).and_then(|s| if s.0 == x as u32 && s.0 != 0 { Some(s.1) } else { None }) }
}

/// Millions of entities with values: nothing may depend on how high a position is.
pub(crate) fn deep(s: &mut S, seed: u64) {
    let mut r = Rng::new(seed);
    let n = match seed % 3 { 0 => (1usize << 20) + 1 + r.idx(1 << 20), 1 => (1 << 22) + 1 + r.idx(1 << 22), _ => if r.chance(1, 2) { LIMIT } else { (1 << 23) + 1 + r.idx(1 << 23) } };
    let n = if cfg!(debug_assertions) { (1 << 20) + 1 + r.idx(1 << 18) } else { n };
    let c0 = *r.pick(&[0, 0, 5, n / 2, n]);
    let mut w = WorldDeep::with_capacity(WorldDeepCapacity { arch_da: c0, arch_db: 0 });
    let mut m = DeepM { slots: vec![], live: vec![], pos: vec![], issued_dup: false, last: vec![] };
    let mut ctr = 0u32;
    let h = |x: u64| EntityAny::from_raw(((x >> 32) as u32, x as u32)).unwrap();
    let side: Vec<(Entity<ArchDb>, u32)> = (0..100).map(|i| (w.create::<ArchDb>((DVal(i),)), i)).collect();
    let mut steps = 0u64;
    let sweep = |s: &mut S, w: &mut WorldDeep, m: &DeepM, what: &str, p: Props| {
        let len = m.live.len();
        s.ck(w.arch_da.len() == len && w.arch_da.capacity() >= len && w.arch_da.capacity() <= LIMIT, C12 | p, || format!("{}: len {} capacity {} with {} live", what, w.arch_da.len(), w.arch_da.capacity(), len));
        let mut seen = vec![0u64; m.slots.len() / 64 + 1];
        let (mut k, mut b6, mut b2) = (0usize, None, None);
        let mut one = |x: u64, v: u32, o: Option<&DOdd>| {
            k += 1;
            let i = DeepM::slot(x);
            match m.val(x) {
                None => if b6.is_none() { b6 = Some(x) },
                Some(e) => {
                    if seen[i / 64] >> (i % 64) & 1 == 1 && b6.is_none() { b6 = Some(x); }
                    seen[i / 64] |= 1 << (i % 64);
                    if (e != v || o.is_some_and(|o| *o != odd(v))) && b2.is_none() { b2 = Some(x); }
                }
            }
        };
        let form = steps % 4;
        let res = guarded(|| match form {
            0 => ecs_iter!(w, |e: &Entity<ArchDa>, v: &DVal, o: &DOdd| one(raw64(e.into_any()), v.0, Some(o))),
            1 => ecs_iter_borrow!(w, |o: &DOdd, e: &EntityAny, v: &mut DVal| one(raw64(*e), v.0, Some(o))),
            2 => for (e, o, v) in w.arch_da.iter_mut() { one(raw64(e.into_any()), v.0, Some(o)) },
            _ => { let a = w.arch_da.get_all_slices_mut(); for i in 0..a.entity.len() { one(raw64(a.entity[i].into_any()), a.d_val[i].0, Some(&a.d_odd[i])) } }
        });
        steps += 1;
        s.ck(res.is_ok() && k == len && b6.is_none(), C06 | p, || format!("{}: a pass over {} entities gives {} items, wrong handle {:?}", what, len, k, b6));
        s.ck(b2.is_none(), C02 | p, || format!("{}: a pass over {} entities gives a wrong value for handle {:x?}", what, len, b2));
    };
    let mut sweep = sweep;
    let sample = |s: &mut S, w: &mut WorldDeep, m: &DeepM, r: &mut Rng, what: &str, p: Props| {
        let mut bad: Option<(u64, &'static str, Props)> = None;
        let len = m.live.len();
        let mut xs: Vec<u64> = (0..1500.min(len)).map(|_| m.live[r.idx(len)]).collect();
        for i in [0usize, 65_535, 65_536, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 1 << 21, 1 << 22, 1 << 23, len.wrapping_sub(1)] { if let Some(e) = w.arch_da.entities().get(i) { xs.push(raw64(e.into_any())); } }
        let res = guarded(|| for x in xs {
            let Some(v) = m.val(x) else { continue };
            let a = h(x);
            let Ok(e) = Entity::<ArchDa>::try_from(a) else { continue };
            let mut ck = |ok: bool, what: &'static str, p: Props| if !ok && bad.is_none() { bad = Some((x, what, p)); };
            ck(w.contains(e) && w.contains(a), "contains", C01);
            ck(ecs_find!(w, a, |f: &EntityAny, v: &DVal, o: &DOdd| (*f, v.0, o.clone())) == Some((a, v, odd(v))), "ecs_find!", C01 | C02);
            ck(ecs_find_borrow!(w, e, |f: &EntityAny, v: &DVal, o: &mut DOdd| (*f, v.0, o.clone())) == Some((a, v, odd(v))), "ecs_find_borrow!", C01 | C02);
            ck(w.arch_da.view(e).map(|y| (*y.entity, y.d_val.0, y.d_odd.clone())) == Some((e, v, odd(v))), "view", C01 | C02);
            ck(w.arch_da.borrow(a).map(|y| (*y.entity(), y.component::<DVal>().0)) == Some((e, v)), "borrow", C01 | C02);
            let i = w.arch_da.resolve(e);
            ck(i.is_some() && i == w.arch_da.resolve(a), "resolve", C01);
            if let Some(i) = i {
                ck(w.arch_da.get_slice::<DVal>().get(i).map(|y| y.0) == Some(v) && w.arch_da.entities().get(i) == Some(&e), "resolve and slices", C02 | C01);
                let d = w.arch_da.to_direct(e);
                ck(d.is_some_and(|d| w.contains(d) && w.arch_da.resolve(d) == Some(i)), "to_direct", C09 | C01);
                if let Some(d) = d { ck(ecs_find!(w, d, |f: &EntityAny, v: &DVal| (*f, v.0)) == Some((a, v)), "ecs_find! by a direct handle", C09 | C02); }
            }
        });
        s.ck(res.is_ok(), C01 | C10 | p, || format!("{}: a lookup panicked among {} entities", what, len));
        if let Some((x, f, q)) = bad { s.ck(false, q | p, || format!("{}: {} is wrong for handle {:x} among {} entities", what, f, x, len)); }
    };
    // Up.
    let res = guarded(|| for i in 0..n { ctr = ctr.wrapping_add(0x9E37_79B1); let v = ctr; let _ = i; let e = w.create::<ArchDa>((odd(v), DVal(v))); m.add(raw64(e.into_any()), v); });
    s.ck(res.is_ok(), C12, || format!("create panicked at len {}", w.arch_da.len()));
    if s.failed() { return; }
    sweep(s, &mut w, &m, "after creation", 0);
    sample(s, &mut w, &m, &mut r, "after creation", 0);
    let mut dead: Vec<u64> = vec![];
    let mut directs: Vec<EntityDirect<ArchDa>> = vec![];
    for round in 0..3 {
        if s.failed() { return; }
        for _ in 0..50 { let x = m.live[r.idx(m.live.len())]; if let Some(d) = guarded(|| w.arch_da.to_direct(Entity::<ArchDa>::from_any(h(x)))).ok().flatten() { directs.push(d); } }
        let k = *r.pick(&[1usize, 1000, n / 20, n / 5]);
        let mut bad: Option<(u64, Props)> = None;
        let res = guarded(|| for i in 0..k {
            // Low positions, high positions, and anything: what relocates is always the highest.
            let x = match i % 3 { 0 => m.live[r.idx(m.live.len())], 1 => raw64(w.arch_da.entities()[r.idx(1 + m.live.len() / 100)].into_any()), _ => { let len = m.live.len(); raw64(w.arch_da.entities()[len - 1 - r.idx(1 + len / 100)].into_any()) } };
            let Some(v) = m.val(x) else { bad = bad.or(Some((x, C06))); break };
            let e = Entity::<ArchDa>::from_any(h(x));
            let got = match i % 4 {
                0 => { let d = w.arch_da.to_direct(e); d.and_then(|d| w.destroy(d)).map(|c| c.into_tuple()) }
                1 => { if w.destroy(h(x)).is_some() { Some((odd(v), DVal(v))) } else { None } }
                _ => w.destroy(e).map(|c| c.into_tuple()),
            };
            match got { Some((o, y)) if y.0 == v && o == odd(v) => {} Some(_) => { bad = bad.or(Some((x, C02))); } None => { bad = bad.or(Some((x, C01 | C09))); } }
            m.del(x);
            if dead.len() < 4000 || i % 64 == 0 { dead.push(x); }
            if w.contains(e) { bad = bad.or(Some((x, C01))); }
        });
        s.ck(res.is_ok() && bad.is_none(), bad.map_or(C01 | C10, |b| b.1), || format!("destroy among {} entities goes wrong for handle {:x?}", m.live.len(), bad));
        if s.failed() { return; }
        sweep(s, &mut w, &m, "after removals", 0);
        sample(s, &mut w, &m, &mut r, "after removals", 0);
        for x in dead.iter().rev().take(3000) { let a = guarded(|| w.contains(h(*x)) || ecs_find!(w, h(*x), |v: &DVal| v.0).is_some()); s.ck(matches!(a, Ok(false)), C01, || format!("a stale handle is accepted among {} entities", m.live.len())); }
        for d in &directs { let a = guarded(|| w.contains(*d)); s.ck(matches!(a, Ok(false)) || (cfg!(debug_assertions) && a.is_err()), C09, || format!("a direct handle survived {} removals", k)); }
        directs.clear();
        // Writes through one path, read through the others.
        let mut lost = None;
        let res = guarded(|| for i in 0..2000usize {
            let x = m.live[r.idx(m.live.len())];
            ctr = ctr.wrapping_add(0x9E37_79B1);
            let v = ctr;
            let e = Entity::<ArchDa>::from_any(h(x));
            let ok = match i % 4 {
                0 => ecs_find!(w, e, |y: &mut DVal, o: &mut DOdd| { y.0 = v; *o = odd(v); }).is_some(),
                1 => match w.arch_da.view(e) { Some(y) => { y.d_val.0 = v; *y.d_odd = odd(v); true } None => false },
                2 => match w.arch_da.borrow(e) { Some(y) => { y.component_mut::<DVal>().0 = v; *y.component_mut::<DOdd>() = odd(v); true } None => false },
                _ => match w.arch_da.resolve(e) { Some(j) => { w.arch_da.borrow_slice_mut::<DVal>()[j].0 = v; w.arch_da.get_slice_mut::<DOdd>()[j] = odd(v); true } None => false },
            };
            if !ok { lost = Some(x); }
            m.slots[DeepM::slot(x)].1 = v;
        });
        s.ck(res.is_ok() && lost.is_none(), C01, || "a write was refused".into());
        if round == 1 {
            // A removal loop with a predicate on the value.
            let (every, brk) = (2 + r.below(50) as u32, if r.chance(1, 2) { Some(r.idx(m.live.len())) } else { None });
            let (mut visits, mut gone, mut bad) = (0usize, vec![], None);
            let res = guarded(|| ecs_iter_destroy!(w, |e: &Entity<ArchDa>, d: &EntityDirect<ArchDa>, v: &DVal, o: &DOdd| {
                let x = raw64(e.into_any());
                if (m.val(x) != Some(v.0) || *o != odd(v.0) || d.archetype_id() != e.archetype_id()) && bad.is_none() { bad = Some(x); }
                let stop = Some(visits) == brk;
                visits += 1;
                match (v.0 % every == 0, stop) { (true, true) => { gone.push(x); EcsStepDestroy::BreakDestroy } (true, false) => { gone.push(x); EcsStepDestroy::ContinueDestroy } (false, true) => EcsStepDestroy::Break, _ => EcsStepDestroy::Continue }
            }));
            let want = brk.map_or(m.live.len(), |b| b + 1);
            s.ck(res.is_ok() && visits == want && bad.is_none(), C07, || format!("ecs_iter_destroy! over {} entities made {} visits, expected {}, wrong {:x?}", m.live.len(), visits, want, bad));
            let mut g = gone.clone();
            g.sort_unstable();
            g.dedup();
            s.ck(g.len() == gone.len(), C07, || "ecs_iter_destroy! visited an entity twice".into());
            if s.failed() { return; }
            for x in &gone { if m.val(*x).is_some() { m.del(*x); } }
            for x in gone.iter().take(3000) { let a = guarded(|| w.contains(h(*x))); s.ck(matches!(a, Ok(false)), C07 | C01, || "ecs_iter_destroy! left a flagged entity alive".into()); }
            sweep(s, &mut w, &m, "after ecs_iter_destroy!", C07);
            sample(s, &mut w, &m, &mut r, "after ecs_iter_destroy!", C07);
        }
        // Refill.
        let back = r.idx(n - m.live.len() + 1);
        let cap = w.arch_da.capacity();
        let mut refused = false;
        let res = guarded(|| for i in 0..back {
            ctr = ctr.wrapping_add(0x9E37_79B1);
            let v = ctr;
            let e = if i & 1 == 0 { w.create::<ArchDa>((odd(v), DVal(v))) } else { match w.create_within_capacity::<ArchDa>((odd(v), DVal(v))) { Ok(e) => e, Err(_) => { refused = true; break } } };
            m.add(raw64(e.into_any()), v);
        });
        s.ck(res.is_ok() && !refused && w.arch_da.capacity() == cap, C12, || format!("freed positions are not reusable: len {} capacity {} (was {})", w.arch_da.len(), w.arch_da.capacity(), cap));
        s.ck(!m.issued_dup, C08, || "a handle was issued twice".into());
        if s.failed() { return; }
        sweep(s, &mut w, &m, "after refilling", 0);
        sample(s, &mut w, &m, &mut r, "after refilling", 0);
        for (e, v) in &side { s.ck(ecs_find!(w, *e, |y: &DVal| y.0) == Some(*v), C02 | C01, || "an entity of another archetype changed".into()); }
        if round == 2 && n <= 1 << 22 {
            let ds: Vec<_> = (0..50).filter_map(|_| w.arch_da.to_direct(Entity::<ArchDa>::from_any(h(m.live[r.idx(m.live.len())])))).collect();
            match guarded(|| w.clone()) {
                Ok(mut w2) => {
                    for d in &ds { let a = guarded(|| ecs_find!(w2, *d, |e: &EntityAny, v: &DVal| (*e, v.0)) == ecs_find!(w, *d, |e: &EntityAny, v: &DVal| (*e, v.0))); s.ck(matches!(a, Ok(true)), C13, || "a direct handle differs in a clone".into()); }
                    sweep(s, &mut w2, &m, "in a clone", C13);
                    sample(s, &mut w2, &m, &mut r, "in a clone", C13);
                    s.ck(w2.arch_da.capacity() == w.arch_da.capacity(), C13, || "a clone has another capacity".into());
                    // Undo half of it in the clone; the original does not notice.
                    let k = m.live.len() / 2;
                    let res = guarded(|| { for i in 0..k { w2.destroy(h(m.live[i])).unwrap(); } while w2.arch_da.len() < w2.arch_da.capacity() { w2.create_within_capacity::<ArchDa>((odd(1), DVal(1))).ok().unwrap(); } });
                    s.ck(res.is_ok(), C13, || "a clone cannot be emptied and refilled to capacity".into());
                    sweep(s, &mut w, &m, "after changes to a clone", C13);
                    sample(s, &mut w, &m, &mut r, "after changes to a clone", C13);
                    drop(w2);
                    sample(s, &mut w, &m, &mut r, "after a clone was dropped", C13);
                }
                Err(_) => { s.ck(false, C13, || "clone panicked".into()); }
            }
        }
    }
}
