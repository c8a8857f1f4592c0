//! Large-scale scenarios that random histories do not reach: many entities in one archetype, the
//! 2^24 limit, and generations aged by real use rather than by the preset hook.
use crate::comp::*;
use crate::exec::*;
use crate::model::*;
use crate::rng::*;
use crate::{outcome, Outcome};

mod lim {
    use crate::comp::*;
    use gecs::prelude::*;
    ecs_world! {
        ecs_name!(WorldLim);
        #[archetype_id(33)]
        ecs_archetype!(ArchLa, CNil);
        ecs_archetype!(ArchLb, CWord, CInl);
    }
}
use gecs::prelude::*;
use lim::*;
pub(crate) const LIMIT: usize = 1 << 24;

pub(crate) struct S { pub ex: Exec, pub m: MWorld }
impl S {
    pub fn ck(&mut self, ok: bool, p: Props, msg: impl FnOnce() -> String) -> bool { let m = self.m.clone(); self.ex.cx.ck(ok, &m, p, msg) }
    pub fn failed(&self) -> bool { self.ex.cx.fail.is_some() }
}

pub fn replay(t: &str) -> Outcome {
    let mut kind = String::new();
    let mut seed = 1u64;
    for l in t.lines() {
        if let Some(h) = l.strip_prefix("!scenario") {
            for kv in h.split_whitespace() { match kv.split_once('=') { Some(("kind", v)) => kind = v.into(), Some(("seed", v)) => seed = v.parse().unwrap_or(1), _ => {} } }
        }
    }
    let mut ex = Exec::new();
    ex.cx.op_props = 0;
    let mut s = S { ex, m: MWorld::new(0, 0, crate::worlds::meta(0)) };
    match kind.as_str() {
        "limit" => limit(&mut s, seed),
        "big" => big(&mut s, seed),
        "age" => age(&mut s, seed),
        "age32" => age32(&mut s, seed),
        "layout" => crate::lay::layout(&mut s, seed),
        "deep" => crate::deep::deep(&mut s, seed),
        _ => { s.ck(false, 0, || format!("harness: unknown scenario {}", kind)); }
    }
    if !s.failed() {
        let (live, e) = reg(|r| (r.live, r.errs.first().cloned()));
        s.ck(live == 0, C04, || format!("{} components are alive after their world was dropped", live));
        s.ck(e.is_none(), C04, || e.unwrap());
    }
    outcome(s.ex, vec![])
}

pub(crate) fn raw64(h: EntityAny) -> u64 { let r = h.raw(); (r.0 as u64) << 32 | r.1 as u64 }

/// Fills an archetype to the limit of 2^24 entities, is refused there, and goes on using it.
fn limit(s: &mut S, seed: u64) {
    let mut r = Rng::new(seed);
    // Beyond the limit.
    for n in [LIMIT + 1, LIMIT * 2, usize::MAX, usize::MAX / 2] {
        let res = guarded(|| drop(WorldLim::with_capacity(WorldLimCapacity { arch_la: n, arch_lb: 0 })));
        s.ck(matches!(res, Err(Pan::Lib(_))), C12, || format!("with_capacity({}) did not panic", n));
    }
    // At the limit and just below it, with_capacity must succeed and mean what it says.
    for n in [LIMIT, LIMIT - 1] {
        let Ok(mut w) = guarded(|| WorldLim::with_capacity(WorldLimCapacity { arch_la: n, arch_lb: 0 })) else { s.ck(false, C12, || format!("with_capacity({}) panicked", n)); return; };
        s.ck(w.arch_la.capacity() >= n && w.arch_la.capacity() <= LIMIT && w.arch_la.is_empty(), C12, || format!("with_capacity({}) gives capacity {}", n, w.arch_la.capacity()));
        let cap = w.arch_la.capacity();
        let ok = guarded(|| { let a = w.create_within_capacity::<ArchLa>((CNil,)).ok(); let b = w.arch_la.create((CNil,)); let ok = a.is_some_and(|a| w.contains(a)) && w.contains(b) && w.arch_la.len() == 2 && w.arch_la.capacity() == cap; drop(w); ok });
        s.ck(matches!(ok, Ok(true)), C12 | C01, || format!("two creations under with_capacity({}) fail or reallocate", n));
        if s.failed() { return; }
    }
    let c0 = *r.pick(&[0usize, 1, 3, 1000, 12_345_678, (1 << 23) + 5, LIMIT - 1, LIMIT - 2, LIMIT]);
    let Ok(mut w) = guarded(|| WorldLim::with_capacity(WorldLimCapacity { arch_la: c0, arch_lb: 3 })) else { s.ck(false, C12, || format!("with_capacity({}) panicked", c0)); return; };
    s.ck(w.arch_la.capacity() >= c0, C12, || "capacity below what was asked for".into());
    let cap0 = w.arch_la.capacity();
    let mut all: Vec<u64> = Vec::with_capacity(LIMIT + 100);
    let use_wc = r.chance(1, 2);
    // All the way up, in one guarded stretch.
    let mut bad = String::new();
    let res = guarded(|| {
        for i in 0..LIMIT {
            if use_wc && i < cap0 {
                match w.arch_la.create_within_capacity((CNil,)) { Ok(h) => all.push(raw64(h.into_any())), Err(_) => { bad = format!("create_within_capacity refused at len {} capacity {}", i, cap0); return; } }
            } else {
                if i == cap0 && use_wc && w.arch_la.create_within_capacity((CNil,)).is_ok() { bad = "create_within_capacity succeeded at capacity".into(); return; }
                all.push(raw64(w.arch_la.create((CNil,)).into_any()));
            }
            if i < c0 && w.arch_la.capacity() != cap0 { bad = format!("reallocated at {} of with_capacity({})", i, c0); return; }
        }
    });
    s.ck(res.is_ok(), C12, || format!("create panicked below the limit, at len {} (started from capacity {})", w.arch_la.len(), c0));
    s.ck(bad.is_empty(), C12, || bad.clone());
    if s.failed() { std::mem::forget(w); return; }
    s.ck(w.arch_la.len() == LIMIT && w.arch_la.capacity() == LIMIT, C12, || format!("len {} capacity {} at the limit", w.arch_la.len(), w.arch_la.capacity()));
    let first = all.clone();
    {
        let mut x = all.clone();
        x.sort_unstable();
        let n = x.len();
        x.dedup();
        s.ck(x.len() == n, C08 | C12, || "equal handles were issued on the way to the limit".into());
    }
    let full = |s: &mut S, w: &mut WorldLim| {
        for f in 0..4 {
            let res = guarded(|| match f { 0 => { w.arch_la.create((CNil,)); true } 1 => { w.create::<ArchLa>((CNil,)); true } 2 => w.arch_la.create_within_capacity((CNil,)).is_ok(), _ => w.create_within_capacity::<ArchLa>((CNil,)).is_ok() });
            match res {
                Ok(false) => { s.ck(f >= 2, C12, || "create returned at the limit".into()); }
                Ok(true) => { s.ck(false, C12, || "a creation succeeded at the limit of 2^24 entities".into()); }
                Err(_) => { s.ex.cx.st.lib_panics += 1; s.ck(f < 2, C12, || "create_within_capacity panicked at the limit".into()); }
            }
            s.ck(w.arch_la.len() == LIMIT && w.arch_la.capacity() == LIMIT, C12 | C10, || "len or capacity changed by a refused creation".into());
        }
    };
    full(s, &mut w);
    s.ex.cx.any_panic = true;
    s.m.panicked = true;
    let h = |x: u64| EntityAny::from_raw(((x >> 32) as u32, x as u32)).unwrap();
    let mut dead: Vec<u64> = vec![];
    for round in 0..3u64 {
        if s.failed() { std::mem::forget(w); return; }
        // Free some positions, anywhere; each must be usable again.
        let k = *r.pick(&[1usize, 2, 1000, 100_000]);
        let mut ok = true;
        for _ in 0..k {
            let i = r.idx(all.len());
            let x = all.swap_remove(i);
            ok &= guarded(|| w.destroy(h(x)).is_some()).unwrap_or(false);
            dead.push(x);
        }
        s.ck(ok, C01 | C12 | C10, || "destroy of a live entity failed at the limit".into());
        s.ck(w.arch_la.len() == LIMIT - k && w.arch_la.capacity() == LIMIT, C12, || "len wrong after destroying at the limit".into());
        for i in 0..k {
            let res = guarded(|| if i % 2 == 0 { w.arch_la.create_within_capacity((CNil,)).ok() } else { Some(w.create::<ArchLa>((CNil,))) });
            match res { Ok(Some(h)) => all.push(raw64(h.into_any())), _ => { s.ck(false, C12, || format!("position {} of {} freed at the limit is not reusable", i, k)); break; } }
        }
        full(s, &mut w);
        for x in dead.iter().take(500) { let a = guarded(|| w.contains(h(*x))); s.ck(matches!(a, Ok(false)), C01 | C12, || format!("a stale handle is accepted at the limit, round {}", round)); }
        for _ in 0..2000 { let x = all[r.idx(all.len())]; let a = guarded(|| w.contains(h(x))); s.ck(matches!(a, Ok(true)), C01 | C12 | C10, || format!("a live handle is rejected at the limit, round {}", round)); }
    }
    // Iteration reaches every one of them, each once (by slot).
    let mut n = 0usize;
    let res = guarded(|| ecs_iter!(w, |_: &Entity<ArchLa>| { n += 1; }));
    s.ck(res.is_ok() && n == LIMIT, C06 | C12, || format!("ecs_iter! made {} visits at the limit", n));
    let mut cur: Vec<u64> = w.arch_la.entities().iter().map(|e| raw64((*e).into_any())).collect();
    cur.sort_unstable();
    let mut exp = all.clone();
    exp.sort_unstable();
    s.ck(cur == exp, C06 | C12, || "entities() is not the set of live handles at the limit".into());
    let _ = first;
    // Lookups by every kind of key, at positions up to the very last one.
    {
        let ents: Vec<Entity<ArchLa>> = w.arch_la.entities().to_vec();
        let mut bad: Option<(usize, &str, Props)> = None;
        let mut held: Vec<(EntityDirect<ArchLa>, usize)> = vec![];
        let mut ix: Vec<usize> = vec![0, 1, 255, 256, 65_535, 65_536, (1 << 20) - 1, 1 << 20, (1 << 23) - 1, 1 << 23, (1 << 23) + 1, LIMIT - 2, LIMIT - 1];
        for _ in 0..3000 { ix.push(r.idx(LIMIT)); }
        let res = guarded(|| for i in ix {
            let e = ents[i];
            let a = e.into_any();
            let mut ck = |ok: bool, what: &'static str, p: Props| if !ok && bad.is_none() { bad = Some((i, what, p)); };
            ck(w.arch_la.resolve(e) == Some(i) && w.arch_la.resolve(a) == Some(i), "resolve", C01);
            let Some(d) = w.arch_la.to_direct(e) else { ck(false, "to_direct", C01 | C09); continue };
            ck(w.to_direct(a) == Some(d.into_any()) && d.archetype_id() == ArchLa::ARCHETYPE_ID, "to_direct of the dynamic handle", C01 | C09);
            ck(w.arch_la.resolve(d) == Some(i) && w.contains(d) && w.contains(d.into_any()), "direct lookup", C09);
            ck(ecs_find!(w, d, |f: &Entity<ArchLa>, x: &EntityDirect<ArchLa>| (*f, *x)) == Some((e, d)), "ecs_find! by a direct handle", C09 | C03);
            ck(ecs_find!(w, a, |f: &EntityAny, x: &EntityDirectAny, _: &CNil| (*f, *x)) == Some((a, d.into_any())), "ecs_find!", C01 | C09);
            ck(ecs_find_borrow!(w, e, |f: &Entity<ArchLa>, x: &EntityDirect<_>, _: &mut CNil| (*f, x.into_any())) == Some((e, d.into_any())), "ecs_find_borrow!", C01 | C09);
            ck(w.arch_la.view(d).map(|v| (v.index(), *v.entity)) == Some((i, e)), "view by a direct handle", C09 | C03);
            ck(w.arch_la.borrow(e).map(|v| (v.index(), *v.entity())) == Some((i, e)), "borrow", C01);
            held.push((d, i));
        });
        s.ck(res.is_ok(), C01 | C09 | C03, || "a lookup panicked at the limit".into());
        if let Some((i, what, p)) = bad { s.ck(false, p, || format!("{} is wrong for the entity at index {} of 2^24", what, i)); }
        let mut n = 0usize;
        let res = guarded(|| w.arch_la.iter().enumerate().all(|(i, x)| { n += 1; *x.0 == ents[i] }));
        s.ck(matches!(res, Ok(true)) && n == LIMIT, C06, || format!("Archetype::iter is wrong at the limit, after {} items", n));
        // Every way to the component arrays and entities has all of them.
        let mut lens: Vec<usize> = vec![];
        let res = guarded(|| {
            lens.push(w.arch_la.get_slice::<CNil>().len());
            lens.push(w.arch_la.get_slice_mut::<CNil>().len());
            lens.push(w.arch_la.borrow_slice::<CNil>().len());
            lens.push(w.arch_la.borrow_slice_mut::<CNil>().len());
            let a = w.arch_la.get_all_slices_mut();
            lens.push(a.entity.len());
            lens.push(a.c_nil.len());
            lens.push(w.arch_la.iter_mut().count());
            let mut n = 0;
            ecs_iter_borrow!(w, |_: &mut CNil, _: &EntityDirect<ArchLa>| { n += 1; });
            lens.push(n);
        });
        s.ck(res.is_ok() && lens.iter().all(|x| *x == LIMIT), C06, || format!("slices and iterators at the limit give {:?}", lens));
        if s.failed() { std::mem::forget(w); return; }
        // A removal loop over all of them.
        let every = 500_000 + r.idx(1_000_000);
        let mut visits = 0usize;
        let mut gone: Vec<u64> = vec![];
        let mut wrong = 0usize;
        let res = guarded(|| ecs_iter_destroy!(w, |e: &Entity<ArchLa>, d: &EntityDirect<ArchLa>| {
            visits += 1;
            if visits % 4096 == 1 && d.archetype_id() != e.archetype_id() { wrong += 1; }
            if visits % every == 1 || visits == LIMIT { gone.push(raw64(e.into_any())); EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }
        }));
        s.ck(res.is_ok() && visits == LIMIT && wrong == 0, C07, || format!("ecs_iter_destroy! made {} visits at the limit", visits));
        s.ck(w.arch_la.len() == LIMIT - gone.len(), C07 | C12, || format!("ecs_iter_destroy! left {} of 2^24 after {} removals", w.arch_la.len(), gone.len()));
        s.ck(!gone.iter().any(|x| w.contains(h(*x))), C07 | C01, || "ecs_iter_destroy! left a flagged entity alive at the limit".into());
        for (d, i) in &held { let a = guarded(|| w.contains(*d)); if !matches!(a, Ok(false)) && !(cfg!(debug_assertions) && a.is_err()) { s.ck(false, C09, || format!("the direct handle of index {} survives removals", i)); break; } }
        let g: Set<u64> = gone.iter().copied().collect();
        all.retain(|x| !g.contains(x));
        for _ in 0..2000 { let x = all[r.idx(all.len())]; let a = guarded(|| w.contains(h(x))); s.ck(matches!(a, Ok(true)), C07 | C01, || "ecs_iter_destroy! lost a surviving entity at the limit".into()); }
        let k = gone.len();
        for i in 0..k {
            let res = guarded(|| w.arch_la.create_within_capacity((CNil,)).ok());
            match res { Ok(Some(e)) => { s.ck(!g.contains(&raw64(e.into_any())), C08, || "a handle destroyed at the limit was issued again".into()); all.push(raw64(e.into_any())) } _ => { s.ck(false, C12, || format!("position {} of {} freed by ecs_iter_destroy! at the limit is not reusable", i, k)); break; } }
        }
        if s.failed() { std::mem::forget(w); return; }
    }
    if seed & 1 == 1 {
        let res = guarded(|| w.clone());
        match res {
            Ok(mut w2) => {
                s.ck(w2.arch_la.len() == LIMIT && w2.arch_la.capacity() == LIMIT, C13, || "clone at the limit differs in len or capacity".into());
                let x = all[r.idx(all.len())];
                let d = guarded(|| w2.destroy(h(x)).is_some());
                s.ck(matches!(d, Ok(true)), C13, || "clone at the limit refused a live handle".into());
                let c = guarded(|| w2.arch_la.create_within_capacity((CNil,)).is_ok());
                s.ck(matches!(c, Ok(true)) && w.contains(h(x)) && !w2.contains(h(x)), C13, || "a clone at the limit cannot be refilled, or is not independent".into());
            }
            Err(_) => { s.ck(false, C13 | C12, || "clone panicked at the limit".into()); }
        }
    }
    let res = guarded(|| drop(w));
    s.ck(res.is_ok(), C04, || "drop panicked".into());
}

/// Tens of thousands of entities in one archetype, beyond any 16-bit index.
fn big(s: &mut S, seed: u64) {
    let mut r = Rng::new(seed);
    let n = *r.pick(&[300usize, 66_000, 70_000, 140_000]);
    let c0 = *r.pick(&[0usize, 1, 1000, 65_536, 100_000]);
    let mut w = WorldLim::with_capacity(WorldLimCapacity { arch_la: 0, arch_lb: c0 });
    let mut hs: Vec<(Entity<ArchLb>, bool)> = vec![];
    let mut vals: Vec<u32> = vec![];
    let mut issued: Set<u64> = Set::default();
    let mk = |s: &mut S, w: &mut WorldLim, hs: &mut Vec<(Entity<ArchLb>, bool)>, vals: &mut Vec<u32>, issued: &mut Set<u64>| {
        let v = hs.len() as u32;
        let b = w.arch_lb.len();
        match guarded(|| w.create::<ArchLb>((CWord::make(v as u64), CInl::make(v as u64)))) {
            Ok(h) => {
                s.ck(issued.insert(raw64(h.into_any())), C08 | C01, || format!("creation {} returned a handle that was issued before", v));
                hs.push((h, true));
                vals.push(v);
            }
            Err(_) => { s.ck(false, C12, || format!("create panicked at len {}", b)); }
        }
    };
    let check = |s: &mut S, w: &mut WorldLim, hs: &Vec<(Entity<ArchLb>, bool)>, vals: &Vec<u32>, what: &str, p: Props| {
        let live = hs.iter().filter(|x| x.1).count();
        s.ck(w.arch_lb.len() == live && w.arch_lb.capacity() >= live, C12 | p, || format!("{}: len {} for {} live", what, w.arch_lb.len(), live));
        let mut seen = vec![false; hs.len()];
        let mut bad = None;
        let mut cnt = 0;
        let res = guarded(|| ecs_iter!(w, |e: &Entity<ArchLb>, c: &CWord, d: &CInl| {
            cnt += 1;
            let v = d.get().val as usize;
            let i = vals.get(v).copied().unwrap_or(0) as usize;
            let _ = i;
            if v >= hs.len() || seen[v] || hs[v].0 != *e || !hs[v].1 || c.get().val != vals[v] as u64 || !d.get().ok { bad = Some(v); } else { seen[v] = true; }
        }));
        s.ck(res.is_ok() && bad.is_none() && cnt == live, C06 | C02 | p, || format!("{}: iteration is wrong at {:?}, {} visits for {}", what, bad, cnt, live));
        let mut bad = None;
        for (v, (h, alive)) in hs.iter().enumerate() {
            let f = guarded(|| match v % 4 {
                0 => ecs_find!(w, *h, |c: &CWord, d: &CInl| (c.get().val, d.get().val)),
                1 => ecs_find_borrow!(w, h.into_any(), |c: &CWord, d: &CInl| (c.get().val, d.get().val)),
                2 => w.arch_lb.view(*h).map(|x| (x.component::<CWord>().get().val, x.component::<CInl>().get().val)),
                _ => w.arch_lb.to_direct(*h).and_then(|d| w.arch_lb.resolve(d)).map(|i| (w.arch_lb.get_slice::<CWord>()[i].get().val, w.arch_lb.get_slice::<CInl>()[i].get().val)),
            });
            let want = if *alive { Some((vals[v] as u64, v as u64)) } else { None };
            match f { Ok(x) if x == want => {} _ => { bad = Some((v, want.is_some())); break; } }
        }
        s.ck(bad.is_none(), C01 | C02 | p, || format!("{}: lookup of entity {:?} is wrong", what, bad));
    };
    for _ in 0..n { mk(s, &mut w, &mut hs, &mut vals, &mut issued); if s.failed() { break; } }
    check(s, &mut w, &hs, &vals, "after creating", 0);
    let rounds = 2 + r.below(2);
    for round in 0..rounds {
        if s.failed() { break; }
        let f = 1 + r.below(7);
        let sal = r.next();
        if r.chance(1, 2) {
            let mut ok = true;
            let len = hs.len();
            for j in 0..len {
                // In a shuffled order, so that free positions are not in sequence.
                let i = (j * 48_271 + sal as usize % len) % len;
                if mix2(sal, i as u64) % 8 >= f { continue; }
                let (h, alive) = hs[i];
                let d = guarded(|| match i % 3 { 0 => w.destroy(h).is_some(), 1 => w.destroy(h.into_any()).is_some(), _ => match w.arch_lb.to_direct(h) { Some(d) => w.destroy(d).is_some(), None => false } });
                ok &= matches!(d, Ok(x) if x == alive);
                hs[i].1 = false;
            }
            s.ck(ok, C01, || "a destroy among many entities gave the wrong answer".into());
        } else {
            let mut cnt = 0usize;
            let live = hs.iter().filter(|x| x.1).count();
            let hs2 = &mut hs;
            let res = guarded(|| ecs_iter_destroy!(w, |d: &CInl| {
                cnt += 1;
                let v = d.get().val;
                if mix2(sal, v) % 8 < f { if (v as usize) < hs2.len() { hs2[v as usize].1 = false; } EcsStepDestroy::ContinueDestroy } else { EcsStepDestroy::Continue }
            }));
            s.ck(res.is_ok() && cnt == live, C07, || format!("ecs_iter_destroy! made {} visits for {} live entities", cnt, live));
        }
        check(s, &mut w, &hs, &vals, "after destroying", C07);
        // Values change, too.
        let k = r.below(1000) as u32;
        let vs = &mut vals;
        let _ = guarded(|| ecs_iter!(w, |c: &mut CWord, d: &CInl| { let v = d.get().val as usize; if v % 5 == round as usize { c.set(k as u64); vs[v] = k; } }));
        let more = r.idx(n / 2 + 1);
        for _ in 0..more { mk(s, &mut w, &mut hs, &mut vals, &mut issued); if s.failed() { break; } }
        check(s, &mut w, &hs, &vals, "after creating again", 0);
    }
    if !s.failed() {
        match guarded(|| w.clone()) {
            Ok(mut w2) => {
                s.ck(w2.arch_lb.capacity() == w.arch_lb.capacity(), C13, || "clone has another capacity".into());
                check(s, &mut w2, &hs, &vals, "in the clone", C13);
                let _ = guarded(|| ecs_iter_destroy!(w2, |_: &CWord| EcsStepDestroy::ContinueDestroy));
                s.ck(w2.arch_lb.len() == 0, C07, || "ecs_iter_destroy! left entities behind".into());
                let cap = w2.arch_lb.capacity();
                let mut k = 0;
                let res = guarded(|| while w2.create_within_capacity::<ArchLb>((CWord::make(1), CInl::make(1))).is_ok() { k += 1; });
                s.ck(res.is_ok() && k == cap, C13 | C12, || format!("a clone emptied and refilled takes {} of {}", k, cap));
                check(s, &mut w, &hs, &vals, "after changing the clone", C13);
            }
            Err(_) => { s.ck(false, C13, || "clone panicked".into()); }
        }
    }
    if s.failed() { std::mem::forget(w); return; }
    #[cfg(feature = "events")]
    {
        // Everything ever created or destroyed here, and nothing twice.
        let mut cr: Vec<u64> = w.arch_lb.iter_created().map(|e| raw64(e.into_any())).collect();
        let mut de: Vec<u64> = w.arch_lb.iter_destroyed().map(|e| raw64(e.into_any())).collect();
        let mut xc: Vec<u64> = hs.iter().map(|x| raw64(x.0.into_any())).collect();
        let mut xd: Vec<u64> = hs.iter().filter(|x| !x.1).map(|x| raw64(x.0.into_any())).collect();
        for v in [&mut cr, &mut de, &mut xc, &mut xd] { v.sort_unstable(); }
        s.ck(cr == xc, C17, || format!("{} created events for {} creations, or the wrong ones", cr.len(), xc.len()));
        s.ck(de == xd, C17, || format!("{} destroyed events for {} destructions, or the wrong ones", de.len(), xd.len()));
        if r.chance(1, 2) { w.arch_lb.clear_events() } else { w.clear_events() }
        s.ck(w.iter_created().next().is_none() && w.iter_destroyed().next().is_none(), C17, || "clear_events leaves events".into());
        if s.failed() { std::mem::forget(w); return; }
    }
    // Down to nothing, one by one, so at every possible length.
    let mut order: Vec<usize> = (0..hs.len()).filter(|i| hs[*i].1).collect();
    for i in (1..order.len()).rev() { order.swap(i, r.idx(i + 1)); }
    let cap = w.arch_lb.capacity();
    let total = order.len();
    let mut gone: Vec<u64> = vec![];
    let mut fail: Option<(Props, &'static str)> = None;
    while let Some(i) = order.pop() {
        let h = hs[i].0;
        let other = order.last().map(|j| hs[*j].0);
        let res = guarded(|| {
            let Some(d) = w.arch_lb.to_direct(h) else { return Some((C01 | C09, "to_direct of a live entity failed")); };
            let od = other.and_then(|o| w.arch_lb.to_direct(o));
            if od.is_none() && other.is_some() { return Some((C01 | C09, "to_direct of a live entity failed")); }
            let got = match i % 4 { 0 => w.destroy(h), 1 => w.arch_lb.destroy(h), 2 => w.destroy(d), _ => { let x = w.arch_lb.view(h).map(|v| (v.component::<CWord>().get().val, v.component::<CInl>().get().val)); if x != Some((vals[i] as u64, i as u64)) { return Some((C01 | C02, "view shows other values")); } if w.destroy(h.into_any()).is_none() { return Some((C01, "destroy of a live entity failed")); } None } };
            if i % 4 != 3 { match got { Some(c) => if c.c_word.get().val != vals[i] as u64 || c.c_inl.get().val != i as u64 { return Some((C02 | C01, "destroy returned other values")) }, None => return Some((C01 | C09, "destroy of a live entity failed")) } }
            if w.contains(h) || w.contains(h.into_any()) { return Some((C01, "a destroyed handle is still accepted")); }
            if w.contains(d) || w.arch_lb.resolve(d).is_some() { return Some((C09 | C01, "the direct handle of a destroyed entity is still accepted")); }
            if od.is_some_and(|d| w.contains(d)) { return Some((C09, "a direct handle survives the removal of another entity")); }
            if other.is_some_and(|o| !w.contains(o)) { return Some((C01, "a live entity became unreachable")); }
            None
        });
        fail = res.unwrap_or(Some((C01 | C12, "a destroy panicked")));
        if fail.is_some() { break; }
        hs[i].1 = false;
        gone.push(raw64(h.into_any()));
        if w.arch_lb.len() != order.len() || w.arch_lb.capacity() != cap || w.arch_lb.is_empty() != order.is_empty() { fail = Some((C12, "len or capacity is wrong")); break; }
        let n = order.len();
        if n <= 600 || n.is_power_of_two() || (n + 1).is_power_of_two() || (n - 1).is_power_of_two() { if let Some(x) = every_view(&mut w, n) { fail = Some((C06, x)); break; } }
        if n <= 24 {
            let same = guarded(|| {
                let mut c = w.clone();
                c.arch_lb.entities() == w.arch_lb.entities() && c.arch_lb.capacity() == cap && every_view(&mut c, n).is_none()
                    && order.iter().all(|i| { let h = hs[*i].0; c.contains(h) && c.arch_lb.to_direct(h) == w.arch_lb.to_direct(h) })
                    && order.iter().all(|i| { let h = hs[*i].0; c.destroy(h).is_some_and(|x| x.c_inl.get().val == *i as u64) && w.contains(h) })
            });
            if !matches!(same, Ok(true)) { fail = Some((C13, "a clone differs")); break; }
        }
        if order.len() % 16_384 == 1 || (order.len() < 4096 && order.len() % 512 == 1) { check(s, &mut w, &hs, &vals, "while draining", 0); if s.failed() { break; } }
    }
    if let Some((p, what)) = fail { s.ck(false, p, || format!("draining {} entities: {}, with {} left", total, what, order.len())); }
    if s.failed() { std::mem::forget(w); return; }
    #[cfg(feature = "events")]
    {
        let mut de: Vec<u64> = w.iter_destroyed().map(|e| raw64(*e)).collect();
        gone.sort_unstable();
        de.sort_unstable();
        s.ck(de == gone && w.iter_created().next().is_none(), C17, || format!("{} destroyed events for {} destructions, or the wrong ones", de.len(), gone.len()));
    }
    // And back to capacity.
    let base = hs.len();
    let mut ok = true;
    let mut view = None;
    let res = guarded(|| loop {
        let v = hs.len();
        match w.create_within_capacity::<ArchLb>((CWord::make(v as u64), CInl::make(v as u64))) {
            Ok(h) => {
                ok &= issued.insert(raw64(h.into_any()));
                hs.push((h, true));
                vals.push(v as u32);
                let n = v + 1 - base;
                if view.is_none() && (n <= 600 || n.is_power_of_two() || (n + 1).is_power_of_two() || (n - 1).is_power_of_two()) { view = every_view(&mut w, n).map(|x| (n, x)); }
            }
            Err(c) => { ok &= c.c_inl.get().val == v as u64; break }
        }
    });
    s.ck(res.is_ok() && hs.len() - base == cap && w.arch_lb.capacity() == cap, C12, || format!("an archetype of capacity {} takes {} entities after being drained", cap, hs.len() - base));
    s.ck(ok, C08 | C01, || "an old handle was issued again after draining".into());
    if let Some((n, x)) = view { s.ck(false, C06, || format!("refilling, with {} entities: {}", n, x)); }
    check(s, &mut w, &hs, &vals, "after refilling", 0);
    if s.failed() { std::mem::forget(w); return; }
    let _ = guarded(|| drop(w));
}

/// All ways to see all entities of an archetype, at length `n`.
fn every_view(w: &mut WorldLim, n: usize) -> Option<&'static str> {
    let ents: Vec<Entity<ArchLb>> = w.arch_lb.entities().to_vec();
    let mut what = None;
    let res = guarded(|| {
        let mut ck = |ok: bool, s: &'static str| if !ok && what.is_none() { what = Some(s) };
        ck(ents.len() == n, "entities() has the wrong length");
        let cs: Vec<(u64, u64)> = { let x = w.arch_lb.get_all_slices_mut(); ck(x.entity == &ents[..] && x.c_word.len() == n && x.c_inl.len() == n, "get_all_slices_mut is wrong"); x.c_word.iter().zip(x.c_inl.iter()).map(|(a, b)| (a.get().iid, b.get().iid)).collect() };
        if cs.len() != n || ents.len() != n { return; }
        let mut i = 0;
        ck(w.arch_lb.iter().all(|(e, a, b)| { i += 1; i <= n && *e == ents[i - 1] && cs[i - 1] == (a.get().iid, b.get().iid) }) && i == n, "Archetype::iter is wrong");
        i = 0;
        ck(w.arch_lb.iter_mut().all(|(e, a, b)| { i += 1; i <= n && *e == ents[i - 1] && cs[i - 1] == (a.get().iid, b.get().iid) }) && i == n, "Archetype::iter_mut is wrong");
        ck(w.arch_lb.get_slice::<CWord>().iter().map(|x| x.get().iid).eq(cs.iter().map(|x| x.0)), "get_slice is wrong");
        ck(w.arch_lb.get_slice_mut::<CInl>().iter().map(|x| x.get().iid).eq(cs.iter().map(|x| x.1)), "get_slice_mut is wrong");
        ck(w.arch_lb.borrow_slice::<CInl>().iter().map(|x| x.get().iid).eq(cs.iter().map(|x| x.1)), "borrow_slice is wrong");
        ck(w.arch_lb.borrow_slice_mut::<CWord>().iter().map(|x| x.get().iid).eq(cs.iter().map(|x| x.0)), "borrow_slice_mut is wrong");
        let mut seen: Set<u64> = Set::default();
        let at: Map<u64, usize> = ents.iter().enumerate().map(|(i, e)| (raw64(e.into_any()), i)).collect();
        ecs_iter!(w, |e: &Entity<ArchLb>, a: &CWord, b: &mut CInl| { i += 1; if let Some(&p) = at.get(&raw64(e.into_any())) { if cs[p] == (a.get().iid, b.get().iid) { seen.insert(p as u64); } } });
        ck(seen.len() == n && i == 2 * n, "ecs_iter! is wrong");
        let mut m = 0;
        ecs_iter_borrow!(w, |e: &EntityAny, a: &mut CWord| { m += 1; if let Some(&p) = at.get(&raw64(*e)) { if cs[p].0 == a.get().iid { seen.remove(&(p as u64)); } } });
        ck(seen.is_empty() && m == n, "ecs_iter_borrow! is wrong");
    });
    if res.is_err() { what = Some("a pass over the archetype panicked"); }
    what
}
/// Real reuse of one position, past 2^16 and some way past 2^20 generations, with old handles kept.
fn age(s: &mut S, seed: u64) {
    let mut r = Rng::new(seed);
    let mut w = WorldLim::new();
    let keep = 1 + r.below(3) as usize;
    // A few neighbours that stay put.
    let fixed: Vec<_> = (0..keep).map(|i| w.create::<ArchLb>((CWord::make(i as u64), CInl::make(i as u64)))).collect();
    let fixed_d: Vec<_> = fixed.iter().map(|h| w.arch_lb.to_direct(*h).unwrap()).collect();
    let mut old: Vec<u64> = vec![];
    let mut oldd: Vec<EntityDirect<ArchLa>> = vec![];
    let cycles = *r.pick(&[70_000u64, 1 << 17, (1 << 20) + 5, (1 << 24) + 3]);
    let mut prev = 0u64;
    let mut seen_prev: Set<u64> = Set::default();
    let mut dup = false;
    for i in 0..cycles {
        let h = w.create::<ArchLa>((CNil,));
        let x = raw64(h.into_any());
        dup |= x == prev;
        prev = x;
        if i < 6 || i & (i - 1) == 0 || (i + 1) & i == 0 {
            dup |= !seen_prev.insert(x);
            let d = w.arch_la.to_direct(h).unwrap();
            let hh = |x: u64| EntityAny::from_raw(((x >> 32) as u32, x as u32)).unwrap();
            for o in &old { s.ck(!w.contains(hh(*o)) && w.to_direct(hh(*o)).is_none(), C01 | C08 | C03, || format!("a handle destroyed long ago is accepted after {} reuses", i)); }
            for o in &oldd { s.ck(!w.contains(*o), C09, || format!("a direct handle is accepted after {} removals", i)); }
            s.ck(w.contains(h) && w.contains(d), C01 | C09, || format!("a live handle is rejected after {} reuses", i));
            for (f, d) in fixed.iter().zip(&fixed_d) { s.ck(w.contains(*f) && w.contains(*d), C01 | C09, || "an undisturbed handle is rejected".into()); }
            old.push(x);
            oldd.push(d);
        } else { dup |= seen_prev.contains(&x); }
        if s.failed() { break; }
        w.destroy(h);
    }
    s.ck(!dup, C08, || "a handle was issued twice during long reuse of one position".into());
    #[cfg(feature = "events")]
    if !s.failed() {
        s.ck(w.arch_la.iter_created().count() as u64 == cycles && w.arch_la.iter_destroyed().count() as u64 == cycles, C17, || "a log of one archetype lost entries".into());
        for f in 0..2 {
            let kept = if f == 0 { keep } else { 0 };
            let total = cycles as usize + kept;
            let w2 = if cycles < 1 << 18 { w.clone() } else { WorldLim::new() };
            for v in [&w, &w2] {
                let total = if v.arch_lb.is_empty() { 0 } else { total };
                let mut left = total;
                let mut ok = true;
                let mut n = [0usize; 2];
                let mut walk = |it: &mut dyn Iterator<Item = EntityAny>| loop {
                    ok &= it.size_hint() == (left, Some(left));
                    let Some(e) = it.next() else { break };
                    n[(e.archetype_id() != ArchLa::ARCHETYPE_ID) as usize] += 1;
                    if left == 0 { ok = false; break; }
                    left -= 1;
                };
                if f == 0 { walk(&mut v.iter_created().copied()) } else { walk(&mut v.iter_destroyed().copied()) }
                s.ck(ok && left == 0, C17, || format!("a world-level event iterator or its size_hint is wrong with {} events, {} left over", total, left));
                s.ck(total == 0 || n == [cycles as usize, kept], C17, || format!("a world-level event iterator gives {:?} events per archetype", n));
            }
        }
        w.clear_events();
        s.ck(w.iter_created().next().is_none() && w.iter_destroyed().next().is_none() && w.arch_la.iter_created().next().is_none(), C17, || "clear_events leaves events".into());
        s.ck(w.arch_lb.len() == keep && fixed.iter().all(|h| w.contains(*h)), C17, || "clear_events affects entities".into());
    }
    if s.failed() { std::mem::forget(w); return; }
    drop(w);
}

/// The full 2^32 generations, by real use.
fn age32(s: &mut S, _seed: u64) {
    let mut w = WorldLim::with_capacity(WorldLimCapacity { arch_la: 1, arch_lb: 0 });
    let h0 = w.create::<ArchLa>((CNil,));
    let d0 = w.arch_la.to_direct(h0).unwrap();
    w.destroy(h0);
    let mut n = 1u64;
    let mut reissued = false;
    let mut last = h0;
    let res = guarded(|| {
        while n < (1u64 << 32) + 10 {
            let h = w.create::<ArchLa>((CNil,));
            reissued |= h == h0;
            last = h;
            w.destroy(h);
            n += 1;
            #[cfg(feature = "events")]
            if n & 0xfff == 0 { w.clear_events(); }
            if reissued { break; }
        }
    });
    match (WRAPPING, res) {
        (true, Ok(())) => {}
        (true, Err(_)) => { s.ck(false, C19 | C08, || format!("wrapping_version panicked after {} reuses", n)); }
        (false, Ok(())) => { s.ck(!reissued, C08 | C01, || format!("the first handle was issued again after {} reuses", n)); s.ck(false, C08, || "a generation counter did not overflow".into()); }
        (false, Err(Pan::Lib(_))) => {
            s.ex.cx.st.overflow_panics += 1;
            s.m.panicked = true;
            s.ck(n > u32::MAX as u64 - 3, C08, || format!("generation overflow after only {} reuses", n));
            let live = w.contains(last);
            s.ck(w.arch_la.len() == live as usize, C10 | C12, || "entity half present after an overflow panic".into());
            s.ck(!w.contains(h0) && !w.contains(d0), C08 | C09 | C01, || "a handle from the first generation is accepted".into());
            let c = guarded(|| w.create::<ArchLa>((CNil,)));
            if let Ok(h) = c { s.ck(h != h0 && h != last && w.contains(h), C08 | C10, || "an old handle was issued after the overflow".into()); }
        }
        _ => {}
    }
    drop(w);
}
