//! Growth that the address space refuses: the allocation size of one column overflows (a documented panic) when the
//! others could grow. Only possible where usize has 32 bits; on 64 bits it would take components of 512 GiB.
use crate::exec::*;
use crate::model::*;
use crate::rng::*;
use crate::scen::S;
use gecs::prelude::*;
use std::cell::Cell;

thread_local! { static ALIVE: Cell<i64> = const { Cell::new(0) }; }
pub struct Tok(Box<u64>);
impl Tok { fn new(x: u64) -> Self { ALIVE.with(|a| a.set(a.get() + 1)); Tok(Box::new(x)) } }
impl Drop for Tok { fn drop(&mut self) { ALIVE.with(|a| a.set(a.get() - 1)); } }
pub struct Tail(pub u16);
macro_rules! decl { ($m:ident, $W:ident, $size:expr, ($($c:ident),*)) => {
    mod $m {
        use super::*;
        pub struct Big(pub std::mem::MaybeUninit<[u8; $size]>);
        pub const SIZE: usize = $size;
        ecs_world! { ecs_name!($W); ecs_archetype!(ArchBig, $($c),*); }
        pub fn go(s: &mut S, seed: u64) { super::go::<M>(s, seed) }
        pub struct M(pub $W);
        impl Lay for M {
            const SIZE: usize = SIZE;
            fn new(n: usize) -> Self { M($W::with_capacity(mk(n))) }
            fn add(&mut self, x: u64) -> EntityAny { let (tok, big, tail) = (Tok::new(x), Big(std::mem::MaybeUninit::uninit()), Tail(x as u16)); self.0.create::<ArchBig>(ArchBigComponents { tok, big, tail }).into_any() }
            fn del(&mut self, e: EntityAny) -> bool { self.0.destroy(e).is_some() }
            fn get(&mut self, e: EntityAny) -> Option<(u64, u16)> { ecs_find!(self.0, e, |t: &Tok, l: &Tail| (*t.0, l.0)) }
            fn direct(&self, e: EntityAny) -> Option<EntityDirectAny> { self.0.to_direct(e) }
            fn has(&self, d: EntityDirectAny) -> bool { self.0.contains(d) }
            fn len(&self) -> usize { self.0.arch_big.len() }
            fn cap(&self) -> usize { self.0.arch_big.capacity() }
        }

        fn mk(n: usize) -> <$W as World>::Capacities { type C = <$W as World>::Capacities; C { arch_big: n } }
    }
} }
trait Lay: Sized {
    const SIZE: usize;
    fn new(n: usize) -> Self;
    fn add(&mut self, x: u64) -> EntityAny;
    fn del(&mut self, e: EntityAny) -> bool;
    fn get(&mut self, e: EntityAny) -> Option<(u64, u16)>;
    fn direct(&self, e: EntityAny) -> Option<EntityDirectAny>;
    fn has(&self, d: EntityDirectAny) -> bool;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
}
decl!(first, WorldF, 1 << 20, (Big, Tok, Tail));
decl!(mid, WorldM, 3 << 18, (Tok, Big, Tail));
decl!(last, WorldL, 5 << 18, (Tok, Tail, Big));

fn go<M: Lay>(s: &mut S, seed: u64) {
    let mut r = Rng::new(seed);
    // The next growth, to (n + 1) * 2 or so, must not fit: n is more than half of what would.
    let fit = isize::MAX as usize / M::SIZE;
    let n = fit / 2 + r.idx(8);
    // More than fits: a clean panic.
    for k in [fit + 1, fit * 2, 1 << 24] {
        let res = guarded(|| drop(M::new(k)));
        s.ck(matches!(res, Err(Pan::Lib(_))), C12, || format!("with_capacity({}) of {} byte components did not panic", k, M::SIZE));
    }
    let Ok(mut w) = guarded(|| M::new(n)) else { s.ck(false, C12, || format!("with_capacity({}) of {} byte components panicked", n, M::SIZE)); return };
    let cap = w.cap();
    let mut es: Vec<EntityAny> = vec![];
    while es.len() < cap && es.len() < n + 64 { let x = es.len() as u64; es.push(w.add(x)); }
    if w.cap() != cap || es.len() != cap { return; }
    let probe: Vec<usize> = (0..12).map(|_| r.idx(es.len())).collect();
    let ds: Vec<_> = probe.iter().map(|i| w.direct(es[*i])).collect();
    for k in 0..3u64 {
        let x = es.len() as u64;
        match guarded(|| w.add(x)) {
            Ok(e) => { es.push(e); return finish(s, w, es, vec![]) }        // It found room after all.
            Err(_) => { s.ex.cx.st.lib_panics += 1; s.ex.cx.any_panic = true; s.m.panicked = true; }
        }
        s.ck(w.len() == es.len() && w.cap() == cap, C10 | C12, || format!("len {} capacity {} after a refused growth at {} of {}", w.len(), w.cap(), es.len(), cap));
        s.ck(ALIVE.with(|a| a.get()) == es.len() as i64, C10 | C04, || "a component was leaked or dropped by a refused growth".into());
        for (i, d) in probe.iter().zip(&ds) {
            let v = w.get(es[*i]);
            s.ck(v == Some((*i as u64, *i as u16)), C10 | C02, || format!("entity {} reads {:?} after a refused growth", i, v));
            s.ck(k > 0 || d.is_some_and(|d| w.has(d)), C10 | C09, || "a direct handle died by a refused growth".into());
        }
        if s.failed() { std::mem::forget(w); return; }
    }
    // And on: room is made and used again.
    let i = r.idx(es.len());
    let old = es[i];
    s.ck(w.del(old), C10 | C01, || "destroy refused after a refused growth".into());
    let e = guarded(|| w.add(i as u64));
    s.ck(e.is_ok(), C10 | C12, || "create refused although a position is free".into());
    if let Ok(e) = e { es[i] = e; s.ck(e != old && w.get(old).is_none(), C08 | C10, || "a stale handle is accepted".into()); }
    s.ck(w.cap() == cap && w.len() == cap, C12 | C10, || "len or capacity is off after reuse".into());
    finish(s, w, es, vec![old])
}

fn finish<M: Lay>(s: &mut S, mut w: M, es: Vec<EntityAny>, dead: Vec<EntityAny>) {
    for (i, e) in es.iter().enumerate() { let v = w.get(*e); if !s.ck(v == Some((i as u64, i as u16)), C10 | C02, || format!("entity {} reads {:?}", i, v)) { break; } }
    for e in dead { s.ck(w.get(e).is_none(), C01 | C10, || "a stale handle is accepted".into()); }
    drop(w);
    s.ck(ALIVE.with(|a| a.get()) == 0, C04 | C10, || "components are alive after their world was dropped".into());
}

pub fn layout(s: &mut S, seed: u64) {
    if usize::BITS > 32 { return; }
    match seed % 3 { 0 => first::go(s, seed), 1 => mid::go(s, seed), _ => last::go(s, seed) }
}
