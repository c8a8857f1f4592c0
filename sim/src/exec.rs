//! Executes steps against the real library and judges every outcome against the model.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::collections::BTreeMap;
use crate::alloc;
use crate::api::*;
use crate::comp::*;
use crate::model::*;
use crate::rng::*;
use gecs::prelude::*;

pub const EVENTS: bool = cfg!(feature = "events");
pub const WRAPPING: bool = cfg!(feature = "wrapping_version");
pub const HOOK: bool = cfg!(gecs_verif);

// ---------------------------------------------------------------- steps

macro_rules! ops { ($($n:ident)*) => {
    #[allow(non_camel_case_types)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(u8)]
    pub enum Op { $($n),* }
    pub const OPS: &[(&str, Op)] = &[$((stringify!($n), Op::$n)),*];
} }
ops!(neww create createwc destroy destroyd iterd clone dropw clear preset fill drain probe probed find findd iter access audit todirect forge sneaky arm bp unwinddrop cloneall);

#[derive(Clone, Debug)]
pub struct Step { pub task: u8, pub op: Op, pub a: Vec<u64> }
impl Step {
    pub fn text(&self) -> String {
        let mut s = format!("t{} {:?}", self.task, self.op);
        for x in &self.a { s.push_str(&format!(" {}", x)); }
        s
    }
    pub fn parse(l: &str) -> Option<Step> {
        let mut it = l.split_whitespace();
        let t = it.next()?.strip_prefix('t')?.parse().ok()?;
        let name = it.next()?;
        let op = OPS.iter().find(|x| x.0 == name)?.1;
        let a: Result<Vec<u64>, _> = it.map(|x| x.parse()).collect();
        Some(Step { task: t, op, a: a.ok()? })
    }
}

pub enum Pan { Inj(u8), Lib(String) }
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Pan> {
    let _g = InLib::new();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) => {
            let _o = OutLib::new();
            if let Some(i) = p.downcast_ref::<Injected>() { return Err(Pan::Inj(i.0)); }
            let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
            Err(Pan::Lib(s))
        }
    }
}

pub struct Fail { pub props: Props, pub base: Props, pub msg: String, pub step: usize, pub world: u64 }
pub struct Slot { pub w: Box<dyn WorldDyn>, pub m: MWorld }
#[derive(Clone, Copy)]
pub struct HRec { pub h: EntityAny, pub wid: u64, pub root: u64 }
#[derive(Clone, Copy)]
pub struct DRec { pub h: EntityDirectAny, pub wid: u64, pub root: u64 }

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: Vec<u64>,
    pub oracle: u64,
    pub visits: u64,
    pub lookups: u64,
    pub lib_panics: u64,
    pub overflow_panics: u64,
    pub conflict_panics: u64,
    pub forged: u64,
    pub foreign: u64,
    pub stale: u64,
    pub relocs: u64,
    pub presets: u64,
    pub clones: u64,
    pub breaks: u64,
    pub wc_refused: u64,
    pub debug_rejects: u64,
    pub alias_refused: u64,
    pub alias_granted: u64,
    pub max_len: u64,
    pub growths: u64,
}

pub struct Cx {
    pub fail: Option<Fail>,
    pub step: usize,
    pub op_props: Props,
    pub arm: Option<(u8, u64)>,
    pub clos: u64,
    pub clos_after: bool,
    pub dig: Fnv,
    pub st: Stats,
    pub known: BTreeMap<&'static str, u64>,
    pub labels: Map<u64, HRec>,
    pub dids: Map<u64, DRec>,
    pub no_fault: bool,
    pub no_overflow: bool,
    pub cloneaway: u8,
    /// Report what is otherwise counted as a known finding.
    pub strict: bool,
    pub any_panic: bool,
    pub trace: bool,
    pub states: Option<Vec<u64>>,
    pub sched: Fnv,
}

pub struct Exec { pub cx: Cx, pub worlds: BTreeMap<u64, Slot>, base_blocks: i64 }

pub fn hash_d(h: &EntityDirectAny) -> u64 {
    use std::hash::{BuildHasher, Hash, Hasher};
    let mut s = Hs.build_hasher();
    h.hash(&mut s);
    s.finish()
}
fn rw(h: EntityAny) -> String { let r = h.raw(); format!("({:#x},{})", r.0, r.1) }

impl Cx {
    pub fn new() -> Self {
        Cx { fail: None, step: 0, op_props: 0, arm: None, clos: 0, clos_after: false, dig: Fnv::new(), st: Stats { ops: vec![0; OPS.len()], ..Stats::default() }, known: BTreeMap::new(),
            labels: Map::default(), dids: Map::default(), no_fault: false, no_overflow: false, cloneaway: 0, strict: false, any_panic: false, trace: false, states: None, sched: Fnv::new() }
    }
    #[cold]
    pub fn bad(&mut self, m: &MWorld, props: Props, msg: impl FnOnce() -> String) {
        if self.fail.is_some() { return; }
        let mut p = props | self.op_props;
        if m.panicked { p |= C10; }
        if m.lineage { p |= C13; }
        let s = msg();
        self.fail = Some(Fail { props: p, base: props, msg: format!("world {} ({}): {}", m.id, m.meta.name, s), step: self.step, world: m.id });
    }
    #[inline]
    pub fn ck(&mut self, ok: bool, m: &MWorld, props: Props, msg: impl FnOnce() -> String) -> bool {
        self.st.oracle += 1;
        if !ok { self.bad(m, props, msg); }
        ok
    }
    /// A point in user closures at which an armed fault may fire.
    fn tick(&mut self) {
        if self.clos > 0 { self.clos -= 1; if self.clos == 0 && !std::thread::panicking() { injected(FK_CLOSURE); } }
    }
    fn failed(&self) -> bool { self.fail.is_some() }
}

fn vals_for(m: &MWorld, a: usize, salt: u64) -> Vec<u64> {
    m.meta.archs[a].kinds.iter().enumerate().map(|(i, k)| mix2(salt, i as u64 + 77) & k.mask).collect()
}

/// Compares a component as read with the model.
fn same(cx: &mut Cx, m: &MWorld, label: u64, col: usize, v: CVal, props: Props, what: &str) {
    let e = &m.ents[&label];
    let (ev, ei) = (e.vals[col], e.iids[col]);
    cx.ck(v.ok && v.val == ev && v.iid == ei, m, props, || format!("{}: entity L{} {} column {} ({}) reads value {:#x} instance {} ok={}, expected value {:#x} instance {}",
        what, label, rw(e.h), col, m.meta.archs[e.arch].kinds[col].name, v.val, v.iid, v.ok, ev, ei));
}

/// Writes a component through whatever reference the library handed out.
fn write_comp(c: &mut dyn CompDyn, kind: Kind, salt: u64) -> (u64, u64) {
    let nv = mix(salt ^ 0x77) & kind.mask;
    let armed = reg(|r| r.arm_drop > 0);
    if salt & 2 == 0 && !armed { c.replace(nv); } else { c.dset(nv); }
    let g = c.dget();
    if g.val != nv || !g.ok { integrity("a component does not read back what was just written through the same reference"); }
    (g.val, g.iid)
}

#[derive(Default)]
struct Got { found: bool, ent: Option<EntityAny>, idx: Option<usize>, seen: Vec<(usize, CVal)>, direct: Option<EntityDirectAny>, calls: u64, ents: Vec<EntP>, arch: Option<usize>, ret_ok: bool, matched: bool }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prov { Own, Foreign, Forged }

pub const N_PATHS: u64 = 11;
const PATH_NAMES: [&str; 12] = ["World::contains", "Archetype::contains", "Archetype::resolve", "World::to_direct", "Archetype::to_direct", "World::view", "World::borrow", "Archetype::view", "Archetype::borrow", "ecs_find!", "ecs_find_borrow!", "destroy"];

fn key_for(m: &MWorld, h: EntP, sel: u64) -> Key {
    let id = match h { EntP::E(h) => h.archetype_id(), EntP::D(h) => h.archetype_id() };
    let typed = sel & 3 != 0 && m.arch_of_id(id).is_some();
    let conv = match sel >> 2 & 3 { 0 => 0, 1 => 1, 2 => CONV_UNCHECKED, _ => 0 };
    Key { h, typed: if typed { m.arch_of_id(id).map(|x| x as u8) } else { None }, conv }
}

enum Want { Must(u64), Reject, Unknown }

/// What the property demands of this handle, before any call.
fn want(m: &MWorld, h: EntP, mint: Option<&Mint>) -> Want {
    match h {
        EntP::E(h) => match m.by_raw.get(&h.raw()) { Some(l) => Want::Must(*l), None => Want::Reject },
        EntP::D(_) => match mint {
            Some(mi) => {
                let a = &m.archs[mi.arch];
                if a.removals == mi.removals && a.structs == mi.structs { Want::Must(mi.label) }
                else if a.removals > mi.removals && !mi.ancient { Want::Reject }
                else { Want::Unknown }
            }
            None => Want::Unknown,
        },
    }
}

fn any_props(h: EntP, prov: Prov) -> Props {
    match (h, prov) { (_, Prov::Forged) | (_, Prov::Foreign) => C03, (EntP::E(_), _) => C01, (EntP::D(_), _) => C09 }
}
fn hs(h: EntP, m: &MWorld) -> String {
    match h {
        EntP::E(h) => format!("handle {}{}", rw(h), match m.by_raw.get(&h.raw()) { Some(l) => format!(" of live L{}", l), None => if m.issued.contains(&h.raw()) { " of a destroyed entity".into() } else { " never issued by this world".into() } }),
        EntP::D(h) => format!("direct handle {:#018x} (arch id {})", hash_d(&h), h.archetype_id()),
    }
}

/// Is there a live entity whose direct handle is exactly `d`?
fn direct_owner(sl: &Slot, d: EntityDirectAny) -> Option<u64> {
    let a = sl.m.arch_of_id(d.archetype_id())?;
    sl.m.archs[a].live.iter().copied().find(|l| {
        let h = sl.m.ents[l].h;
        matches!(guarded(|| sl.w.w_to_direct(Key::any(h))), Ok(Some(x)) if x == d)
    })
}

/// Sends one handle down one lookup path and judges the answer.
pub fn probe_path(cx: &mut Cx, sl: &mut Slot, h: EntP, mint: Option<Mint>, path: u64, salt: u64, prov: Prov) {
    if cx.failed() { return; }
    let mut r = Rng::new(salt);
    let id = match h { EntP::E(h) => h.archetype_id(), EntP::D(h) => h.archetype_id() };
    let own_arch = sl.m.arch_of_id(id);
    let mut path = path;
    let k = key_for(&sl.m, h, r.next());
    if k.typed.is_none() && (path == 5 || path == 6) { path += 2; }
    let n_arch = sl.m.archs.len();
    let alien = r.chance(1, 8) || own_arch.is_none();
    let at = if alien && k.typed.is_none() { r.idx(n_arch) } else { own_arch.unwrap() };
    let arch_level = matches!(path, 1 | 2 | 4 | 7 | 8);
    let aligned = !arch_level || Some(at) == own_arch;
    let wnt = want(&sl.m, h, mint.as_ref());
    let q = r.idx(sl.m.meta.queries.len());
    let spec = &sl.m.meta.queries[q];
    let kq = if spec.typed { k } else { Key { typed: None, ..k } };
    let refs = if spec.refs && kq.typed.is_none() { r.below(3) as u8 } else { 0 };
    let form = r.next() as u8;
    let do_write = r.chance(1, 3) && matches!(wnt, Want::Must(_));
    let wsalt = r.next();
    let meta = sl.m.meta;
    let mut g = Got::default();
    let mut wr: Vec<(usize, usize, u64, u64)> = vec![];
    let prov_ok_panic = prov != Prov::Own;
    cx.st.lookups += 1;

    let res = {
        let Slot { w, m } = &mut *sl;
        let g = &mut g;
        let wr = &mut wr;
        let cxx = &mut *cx;
        guarded(|| {
            match path {
                0 => g.found = w.w_contains(k),
                1 => g.found = w.arch(at).a_contains(k),
                2 => { g.idx = w.arch(at).a_resolve(k); g.found = g.idx.is_some(); }
                3 => { g.direct = w.w_to_direct(k); g.found = g.direct.is_some(); }
                4 => { g.direct = w.arch(at).a_to_direct(k); g.found = g.direct.is_some(); }
                5..=8 => {
                    let a = if path <= 6 { own_arch.unwrap() } else { at };
                    let kinds = meta.archs[a].kinds;
                    let mutable = path == 5 || path == 7 || form & 1 == 1;
                    let mut cb = |col: usize, c: &mut dyn CompDyn| {
                        g.calls += 1;
                        g.seen.push((col, c.dget()));
                        if do_write && mutable && mix2(wsalt, col as u64) % 3 == 0 {
                            let (v, i) = write_comp(c, kinds[col], mix2(wsalt, col as u64) >> 3);
                            wr.push((a, col, v, i));
                        }
                    };
                    let o = match path {
                        5 => w.w_view(k, form, &mut cb),
                        6 => w.w_borrow(k, form, &mut cb),
                        7 => w.arch_mut(at).a_view(k, form, &mut cb),
                        _ => w.arch(at).a_borrow(k, form, &mut cb),
                    };
                    g.found = o.is_some();
                    if let Some((i, e)) = o { g.idx = Some(i); g.ent = Some(e); }
                }
                _ => {
                    let mut cb = |v: &mut Visit| -> u8 {
                        g.calls += 1;
                        g.arch = Some(v.arch);
                        g.ents = v.ents.to_vec();
                        if v.arch >= meta.archs.len() { return 7; }
                        let kinds = meta.archs[v.arch].kinds;
                        if let Some(b) = spec.binds[v.arch] {
                            g.matched = true;
                            for (j, c) in v.comps.iter_mut().enumerate() {
                                let (col, mu) = b[j];
                                match c {
                                    CompP::R(c) => { g.seen.push((col, c.dget())); if mu { integrity("mutability of a query parameter"); } }
                                    CompP::M(c) => {
                                        g.seen.push((col, c.dget()));
                                        if do_write && mix2(wsalt, col as u64) % 3 == 0 {
                                            let (x, i) = write_comp(&mut **c, kinds[col], mix2(wsalt, col as u64) >> 3);
                                            wr.push((v.arch, col, x, i));
                                        }
                                    }
                                }
                            }
                        }
                        for e in v.ents { if let EntP::E(e) = e { g.ent = Some(*e); } }
                        cxx.tick();
                        7
                    };
                    let o = if path == 9 { w.q_find(q, kq, refs, &mut cb) } else { w.q_find_borrow(q, kq, refs, &mut cb) };
                    g.found = o.is_some();
                    g.ret_ok = o.is_none() || o == Some(1007);
                }
            }
        }).map_err(|p| { m.panicked |= matches!(p, Pan::Inj(_)); p })
    };
    let name = PATH_NAMES[path as usize];
    // Whatever was written was written, panic or not.
    if let Want::Must(l) = wnt {
        for (a, col, v, i) in wr { if let Some(e) = sl.m.ents.get_mut(&l) { if e.arch == a { e.vals[col] = v; e.iids[col] = i; } } }
    }
    let matched_must = |l: u64, m: &MWorld| path < 9 || spec.binds[m.ents[&l].arch].is_some();
    match res {
        Err(Pan::Inj(_)) => {
            cx.any_panic = true;
            cx.dig.add(0x1111);
            // The closure ran, so the handle was accepted.
            cx.ck(!matches!(wnt, Want::Reject), &sl.m, any_props(h, prov) | C03, || format!("{} ran its closure for {}", name, hs(h, &sl.m)));
            return;
        }
        Err(Pan::Lib(s)) => {
            cx.st.lib_panics += 1;
            cx.st.debug_rejects += 1;
            cx.dig.add(0);
            // Past a wraparound, an ancient direct handle may match again and fail the (debug) bounds assertion.
            let ok = (prov_ok_panic || (sl.m.wrapped && matches!(h, EntP::D(_)))) && !matches!(wnt, Want::Must(_));
            cx.ck(ok, &sl.m, any_props(h, prov), || format!("{} panicked ({}) for {}", name, s, hs(h, &sl.m)));
            return;
        }
        Ok(()) => {}
    }
    cx.dig.add(g.found as u64);
    if let Some(i) = g.idx { cx.dig.add(i as u64); }
    if let Some(d) = g.direct { cx.dig.add(hash_d(&d)); }

    if path >= 9 {
        let cp = any_props(h, prov);
        cx.ck(g.ret_ok && g.calls == g.found as u64, &sl.m, cp, || format!("{} returned Some={} after {} closure calls for {}", name, g.found, g.calls, hs(h, &sl.m)));
        if g.found && !g.matched { cx.bad(&sl.m, C06 | cp, || format!("{} ran in an archetype the query does not match", name)); return; }
    }
    if !g.found {
        let refused = match wnt { Want::Must(l) => aligned && matched_must(l, &sl.m), _ => false };
        cx.ck(!refused, &sl.m, any_props(h, prov) | if prov != Prov::Own && matches!(h, EntP::E(_)) { C01 } else { 0 } | mint.map_or(0, |m| if m.by_iterd { C07 } else { 0 }), || format!("{} rejected {}, which must be accepted", name, hs(h, &sl.m)));
        if let (Want::Unknown, EntP::D(d)) = (&wnt, h) {
            // Not accepted: then it must not be the current direct handle of a live entity.
            if aligned && path < 9 && r.chance(1, 4) {
                if let Some(l) = direct_owner(sl, d) {
                    cx.bad(&sl.m, any_props(h, prov) | C09, || format!("{} rejected the direct handle that to_direct returns for live L{}", name, l));
                }
            }
        }
        if matches!(wnt, Want::Reject) { match prov { Prov::Own => cx.st.stale += 1, Prov::Foreign => cx.st.foreign += 1, Prov::Forged => cx.st.forged += 1 } }
        return;
    }
    // Accepted.
    if !aligned {
        cx.bad(&sl.m, any_props(h, prov) | C03, || format!("{} of archetype {} accepted {} of another archetype", name, sl.m.meta.archs[at].name, hs(h, &sl.m)));
        return;
    }
    if let Want::Reject = wnt {
        let dead = match h { EntP::E(_) => C01, EntP::D(_) => mint.map_or(0, |mi| if sl.m.ents.contains_key(&mi.label) { 0 } else { C01 }) };
        let iterd = mint.map_or(0, |m| if m.by_iterd { C07 } else { 0 });
        cx.bad(&sl.m, any_props(h, prov) | C03 | iterd | if prov == Prov::Own { dead } else { 0 }, || format!("{} accepted {}, which must be rejected", name, hs(h, &sl.m)));
        return;
    }
    // Whom does it designate?
    let a = own_arch.unwrap();
    let idx = match g.idx { Some(i) => Some(i), None => guarded(|| sl.w.arch(a).a_resolve(k)).ok().flatten() };
    let ent = match g.ent { Some(e) => Some(e), None => idx.and_then(|i| sl.w.arch(a).a_entity_at(i)) };
    let label = ent.and_then(|e| sl.m.by_raw.get(&e.raw()).copied());
    let p = any_props(h, prov);
    let Some(label) = label else {
        cx.bad(&sl.m, p | C03 | C01, || format!("{} accepted {} but it designates no live entity (index {:?}, entity {:?})", name, hs(h, &sl.m), idx, ent.map(rw)));
        return;
    };
    match wnt {
        Want::Must(l) => { cx.ck(l == label, &sl.m, p | C02, || format!("{} with {} reached L{} instead of L{}", name, hs(h, &sl.m), label, l)); }
        _ => {
            let EntP::D(d) = h else { unreachable!() };
            if let Some(mi) = mint { cx.ck(mi.label == label || mi.ancient, &sl.m, p | C03, || format!("{} with {} reached L{} but it was issued for L{}", name, hs(h, &sl.m), label, mi.label)); }
            let eh = sl.m.ents[&label].h;
            let td = guarded(|| sl.w.w_to_direct(Key::any(eh))).ok().flatten();
            cx.ck(td == Some(d), &sl.m, p | C03, || format!("{} accepted {} and reached L{}, whose direct handle is a different one", name, hs(h, &sl.m), label));
        }
    }
    if cx.failed() { return; }
    if let Some(d) = g.direct {
        if let EntP::D(h) = h { cx.ck(h == d, &sl.m, C09, || format!("{} turned a direct handle into a different one", name)); }
        let ok = guarded(|| (sl.w.w_contains(Key::dany(d)), sl.w.arch(a).a_resolve(Key::dany(d)), sl.w.w_to_direct(Key::any(sl.m.ents[&label].h))));
        match ok {
            Ok((true, Some(i), Some(d2))) => { cx.ck(d2 == d && sl.w.arch(a).a_entity_at(i).map(|e| e.raw()) == Some(sl.m.ents[&label].h.raw()), &sl.m, C09, || format!("{} issued a direct handle that designates another entity than L{}", name, label)); }
            _ => cx.bad(&sl.m, C09, || format!("{} issued a direct handle that is not accepted", name)),
        }
    }
    if let Some(i) = g.idx {
        // The index must address this entity in every slice.
        let e = sl.w.arch(a).a_entity_at(i);
        cx.ck(e.map(|e| e.raw()) == Some(sl.m.ents[&label].h.raw()), &sl.m, p | C02 | C06, || format!("{} with {} gives index {}, where entities() has {:?}", name, hs(h, &sl.m), i, e.map(rw)));
        if path == 2 {
            let nc = sl.m.meta.archs[a].kinds.len();
            let col = r.idx(nc);
            let f = r.next() as u8;
            let mut got = None;
            if guarded(|| sl.w.arch_mut(a).a_slice(col, f, &mut |s| if i < s.len() { got = Some(s.get(i)) })).is_err() { cx.bad(&sl.m, C02 | C11, || "slice accessor panicked".into()); }
            match got { Some(v) => same(cx, &sl.m, label, col, v, C02, "resolve + slice"), None => cx.bad(&sl.m, C02 | C06, || "resolved index is outside the slice".into()) }
        }
    }
    if (5..=8).contains(&path) { cx.ck(g.seen.len() == sl.m.meta.archs[a].kinds.len(), &sl.m, C02, || format!("{} exposes {} components", name, g.seen.len())); }
    // What was read first is the old value; `seen` predates the writes.
    let pre = g.seen;
    let e = &sl.m.ents[&label];
    if !do_write {
        for (col, v) in pre { same(cx, &sl.m, label, col, v, C02 | if p == C03 { C03 } else { 0 }, name); }
    } else {
        // Values written above are in the model already, so only check the columns not written.
        for (col, v) in pre {
            if mix2(wsalt, col as u64) % 3 != 0 { same(cx, &sl.m, label, col, v, C02, name); }
            else { cx.ck(v.ok, &sl.m, C02 | C03, || format!("{}: corrupt component in column {} of {}", name, col, rw(e.h))); }
        }
    }
    for x in g.ents {
        match x {
            EntP::E(e) => { cx.ck(e.raw() == sl.m.ents[&label].h.raw(), &sl.m, p | C06, || format!("{} passed {} to its closure for L{}", name, rw(e), label)); }
            EntP::D(d) => {
                let eh = sl.m.ents[&label].h;
                let td = guarded(|| sl.w.w_to_direct(Key::any(eh))).ok().flatten();
                cx.ck(td == Some(d), &sl.m, C09, || format!("{} passed a direct handle to its closure which is not that of L{}", name, label));
            }
        }
    }
    if let Some(x) = g.arch { cx.ck(x == a, &sl.m, p | C06, || format!("{} ran in archetype {} for {}", name, x, hs(h, &sl.m))); }
}

// ---------------------------------------------------------------- visiting (iteration)

struct It<'a> {
    q: usize, spec: &'static QuerySpec, salt: u64, what: &'static str, props: Props,
    seen: Set<u64>, n: u64, brk: Option<u64>, broke: bool, destroys: bool, dens: u64, brk_destroy: bool,
    pend: Option<u64>, mints: Vec<u64>, did0: u64, nd: u64, world: Option<&'a dyn WorldDyn>, write: bool, lab0: u64, nlab: u64, by_iterd: bool,
}

fn label_of_visit(cx: &mut Cx, m: &MWorld, it_what: &str, props: Props, v: &Visit, binds: &[(usize, bool)]) -> Option<u64> {
    let mut label: Option<u64> = None;
    for x in v.ents {
        if let EntP::E(e) = x {
            let l = m.by_raw.get(&e.raw()).copied();
            if l.is_none() { cx.bad(m, props | C01, || format!("{} presented {} which is not a live entity", it_what, rw(*e))); return None; }
            if label.is_some() && label != l { cx.bad(m, props, || format!("{} passed two different entities to one closure call", it_what)); return None; }
            label = l;
        }
    }
    if label.is_none() {
        for (j, c) in v.comps.iter().enumerate() {
            let g = match c { CompP::R(c) => c.dget(), CompP::M(c) => c.dget() };
            let k = m.meta.archs[v.arch].kinds[binds[j].0];
            if k.tracked && !k.zst {
                match m.by_iid(v.arch, g.iid) {
                    Some(l) => label = Some(l),
                    None => { cx.bad(m, props | C02, || format!("{} presented component instance {} (ok={}) which belongs to no live entity", it_what, g.iid, g.ok)); return None; }
                }
                break;
            }
        }
    }
    if label.is_none() { cx.bad(m, 0, || format!("harness: {} cannot identify the entity", it_what)); }
    label
}

fn settle(m: &mut MWorld, it: &mut It) { if let Some(l) = it.pend.take() { m.remove(l); } }

fn visit(cx: &mut Cx, m: &mut MWorld, it: &mut It, v: &mut Visit) -> u8 {
    settle(m, it);
    if cx.failed() { return 1; }
    cx.st.visits += 1;
    it.n += 1;
    if v.arch >= m.archs.len() { cx.bad(m, it.props, || format!("{}: bad MatchedArchetype", it.what)); return 1; }
    if it.broke { cx.bad(m, it.props, || format!("{} called its closure again after Break", it.what)); return 1; }
    let Some(binds) = it.spec.binds[v.arch] else { cx.bad(m, it.props, || format!("{} (query {}) ran in archetype {} it does not match", it.what, it.q, v.arch)); return 1; };
    let Some(label) = label_of_visit(cx, m, it.what, it.props, v, binds) else { return 1 };
    let e_arch = m.ents[&label].arch;
    cx.ck(e_arch == v.arch, m, it.props, || format!("{} presented L{} of archetype {} in archetype {}", it.what, label, e_arch, v.arch));
    let dup = !it.seen.insert(label);
    cx.ck(!dup, m, it.props, || format!("{} presented L{} twice", it.what, label));
    if cx.failed() { return 1; }
    cx.dig.add(label);
    for (j, c) in v.comps.iter().enumerate() {
        let (col, mu) = binds[j];
        let (g, isr) = match c { CompP::R(c) => (c.dget(), true), CompP::M(c) => (c.dget(), false) };
        if mu == isr { integrity("mutability of a query parameter"); }
        same(cx, m, label, col, g, it.props | C02, it.what);
    }
    if cx.failed() { return 1; }
    for x in v.ents {
        if let EntP::D(d) = x {
            if d.archetype_id() != m.meta.ids[v.arch] { cx.bad(m, C09 | it.props, || format!("{} passed a direct handle of another archetype", it.what)); }
            if it.nd < 12 {
                let did = it.did0 + it.nd;
                it.nd += 1;
                m.mint(did, *d, label, it.by_iterd);
                cx.dids.insert(did, DRec { h: *d, wid: m.id, root: m.root });
                it.mints.push(did);
            }
            if let Some(w) = it.world {
                let h = m.ents[&label].h;
                let ok = guarded(|| (w.w_contains(Key::dany(*d)), w.w_to_direct(Key::any(h))));
                cx.ck(matches!(ok, Ok((true, Some(x))) if x == *d), m, C09 | (it.props & C07), || format!("{} passed a direct handle for L{} that is not accepted or not that of this entity", it.what, label));
            }
        }
    }
    // Writes
    let mut w_any = false;
    if it.write {
        for (j, c) in v.comps.iter_mut().enumerate() {
            let (col, _) = binds[j];
            if let CompP::M(c) = c {
                let s = mix2(it.salt ^ 0x5151, label * 64 + col as u64);
                if s % 3 == 0 {
                    let (x, i) = write_comp(&mut **c, m.meta.archs[v.arch].kinds[col], s >> 3);
                    let e = m.ents.get_mut(&label).unwrap();
                    e.vals[col] = x;
                    e.iids[col] = i;
                    w_any = true;
                }
            }
        }
    }
    let _ = w_any;
    if let Some((oa, arch)) = &mut v.other { other_ops(cx, m, it, *oa, &mut **arch); }
    cx.tick();
    let brk = it.brk == Some(it.n - 1);
    let des = it.destroys && if brk { it.brk_destroy } else { mix2(it.salt, label) % 8 < it.dens };
    if des { it.pend = Some(label); }
    if brk { it.broke = true; cx.st.breaks += 1; }
    // Each decision has two spellings in the generated closures.
    let alt = label & 1 == 1;
    match (des, brk) { (false, false) => if alt { 4 } else { 0 }, (false, true) => if alt { 5 } else { 1 }, (true, false) => if alt { 6 } else { 2 }, (true, true) => if alt { 7 } else { 3 } }
}

/// Structural changes to an archetype the running query does not touch, from inside its closure.
fn other_ops(cx: &mut Cx, m: &mut MWorld, it: &mut It, a: usize, arch: &mut dyn ArchDyn) {
    if it.nlab >= 12 { return; }
    let mut r = Rng::new(mix2(it.salt ^ 0xabcd, it.n));
    it.nlab += 1;
    let n_live = m.archs[a].live.len();
    if n_live == 0 || r.chance(1, 2) {
        let label = it.lab0 + it.nlab;
        let s = r.next();
        let v = vals_for(m, a, s);
        let mut ids = vec![];
        let res = guarded(|| arch.a_create(&v, &mut ids, (r.next() & 1) as u8));
        match res {
            Ok(h) => created(cx, m, a, label, h, v, ids),
            Err(_) => cx.bad(m, C12, || "creation panicked inside a query closure on another archetype".into()),
        }
    } else {
        let label = m.archs[a].live[r.idx(n_live)];
        let h = m.ents[&label].h;
        if m.exhausted(label) { return; }
        let mut out = vec![];
        let res = guarded(|| arch.a_destroy(key_for(m, EntP::E(h), r.next()), r.next() as u8, &mut out));
        match res {
            Ok(true) => { check_returned(cx, m, label, &out, "destroy inside a closure"); m.remove(label); }
            _ => cx.bad(m, C01, || "destroy of a live entity failed inside a query closure on another archetype".into()),
        }
    }
}

fn created(cx: &mut Cx, m: &mut MWorld, a: usize, label: u64, h: EntityAny, vals: Vec<u64>, iids: Vec<u64>) {
    cx.dig.add(h.raw().0 as u64 | (h.raw().1 as u64) << 32);
    cx.ck(h.archetype_id() == m.meta.ids[a], m, C01 | C08, || format!("create in archetype {} returned {} with archetype id {}", a, rw(h), h.archetype_id()));
    let live_dup = m.by_raw.contains_key(&h.raw());
    cx.ck(!live_dup, m, C08 | C01, || format!("create returned {} which is the handle of live L{}", rw(h), m.by_raw[&h.raw()]));
    { cx.ck(!m.issued.contains(&h.raw()), m, C08 | C01, || format!("create returned {} which was issued before", rw(h))); }
    if cx.failed() { return; }
    cx.labels.insert(label, HRec { h, wid: m.id, root: m.root });
    m.insert(MEnt { label, h, arch: a, vals, iids });
    cx.st.max_len = cx.st.max_len.max(m.archs[a].live.len() as u64);
}

fn check_returned(cx: &mut Cx, m: &MWorld, label: u64, out: &[CVal], what: &str) {
    let n = m.meta.archs[m.ents[&label].arch].kinds.len();
    cx.ck(out.len() == n, m, C02 | C04, || format!("{} returned {} components", what, out.len()));
    for (i, v) in out.iter().enumerate().take(n) { same(cx, m, label, i, *v, C02 | C04, what); }
}

// ---------------------------------------------------------------- audits

fn errs(cx: &mut Cx, m: &MWorld) {
    let v = reg(|r| std::mem::take(&mut r.errs));
    if let Some(e) = v.first() {
        let p = if e.contains("twice") || e.contains("more CZst") { C04 } else if e.contains("never existed") { C04 | C03 } else if e.contains("cloned") { C04 | C13 } else if e.contains("entity expression") { C01 | C02 } else { C02 };
        let e = e.clone();
        cx.bad(m, p, || e);
    }
}

pub fn audit(cx: &mut Cx, sl: &mut Slot, salt: u64, props: Props) {
    if cx.failed() { return; }
    let Slot { w, m } = sl;
    errs(cx, m);
    let mut r = Rng::new(salt);
    let mut hsh = Fnv::new();
    hsh.add(m.kind as u64);
    for a in 0..m.archs.len() {
        if cx.failed() { return; }
        let n = m.archs[a].live.len();
        let (len, emp, cap, ents) = {
            let ar = w.arch(a);
            let mut ents = vec![];
            let rr = guarded(|| { ar.a_entities(&mut |e| ents.push(e)); (ar.a_len(), ar.a_is_empty(), ar.a_capacity()) });
            match rr { Ok((l, e, c)) => (l, e, c, ents), Err(_) => { cx.bad(m, C06 | C12, || "len/entities panicked".into()); return; } }
        };
        cx.dig.add(len as u64);
        cx.dig.add(cap as u64);
        let nm = m.meta.archs[a].name;
        cx.ck(len == n, m, props | C12 | C06, || format!("{}: len() is {} with {} live entities", nm, len, n));
        cx.ck(emp == (n == 0), m, props | C12, || format!("{}: is_empty() is {} with {} live entities", nm, emp, n));
        let mc = m.archs[a].cap;
        cx.ck(cap >= mc, m, props | C12, || format!("{}: capacity() fell from {} to {}", nm, mc, cap));
        cx.ck(cap >= len, m, props | C12, || format!("{}: capacity() {} is below len() {}", nm, cap, len));
        if cap > mc { cx.st.growths += 1; }
        m.archs[a].cap = cap;
        hsh.add(len as u64 | (cap as u64) << 32);
        cx.ck(ents.len() == n, m, props | C06 | C01, || format!("{}: entities() lists {} handles with {} live entities", nm, ents.len(), n));
        if cx.failed() { return; }
        let mut pos = Vec::with_capacity(n);
        let mut seen = Set::default();
        for e in &ents {
            match m.by_raw.get(&e.raw()) {
                Some(l) if m.ents[l].arch == a && seen.insert(*l) => pos.push(*l),
                Some(l) => { cx.bad(m, props | C06, || format!("{}: entities() lists {} (L{}) wrongly or twice", nm, rw(*e), l)); return; }
                None => { cx.bad(m, props | C06 | C01, || format!("{}: entities() lists {} which is not live", nm, rw(*e))); return; }
            }
            hsh.add(e.raw().0 as u64 | (e.raw().1 as u64) << 32);
            cx.dig.add(e.raw().0 as u64 | (e.raw().1 as u64) << 32);
        }
        let nc = m.meta.archs[a].kinds.len();
        let cols: Vec<usize> = if nc <= 6 { (0..nc).collect() } else { (0..5).map(|_| r.idx(nc)).collect() };
        for col in cols {
            let form = r.next() as u8;
            let mut vals = Vec::with_capacity(n);
            let rr = guarded(|| w.arch_mut(a).a_slice(col, form, &mut |s| for i in 0..s.len() { vals.push(s.get(i)) }));
            if rr.is_err() { cx.bad(m, props | C11 | C02, || format!("{}: slice accessor (form {}) of column {} panicked with nothing borrowed", nm, form & 3, col)); return; }
            cx.ck(vals.len() == n, m, props | C06, || format!("{}: slice of column {} has {} items", nm, col, vals.len()));
            for (i, v) in vals.into_iter().enumerate().take(pos.len()) {
                if cx.failed() { return; }
                same(cx, m, pos[i], col, v, props | C02 | C06, "slice");
            }
        }
        // Nothing that is still in the world may have been dropped.
        for l in &pos {
            let e = &m.ents[l];
            for (c, i) in e.iids.iter().enumerate() {
                if *i != 0 { let st = reg(|r| r.st[*i as usize]); if st != 1 { cx.bad(m, C04 | props, || format!("column {} of live L{} has been dropped", c, l)); return; } }
            }
        }
    }
    #[cfg(feature = "events")]
    { let wl = r.chance(1, 3); let x = r.next(); events(cx, w.as_ref(), m, wl, x); }
    errs(cx, m);
    if let Some(s) = &mut cx.states { s.push(hsh.0); }
}

#[cfg(feature = "events")]
fn events(cx: &mut Cx, w: &dyn WorldDyn, m: &MWorld, world_level: bool, salt: u64) {
    let p = C17;
    let mut r = Rng::new(salt);
    for a in 0..m.archs.len() {
        for d in [false, true] {
            let mut got = vec![];
            if guarded(|| w.arch(a).a_events(d, &mut |e| got.push(e.raw()))).is_err() { cx.bad(m, p, || "event log access panicked".into()); return; }
            let mut exp = if d { m.archs[a].destroyed.clone() } else { m.archs[a].created.clone() };
            let mut g = got.clone();
            g.sort();
            exp.sort();
            cx.ck(g == exp, m, p, || format!("{} log of archetype {} has {} entries {:x?}, expected {} {:x?}", if d { "destroyed" } else { "created" }, m.meta.archs[a].name, g.len(), &g[..g.len().min(6)], exp.len(), &exp[..exp.len().min(6)]));
            if world_level {
                let (form, n) = (r.below(N_DRIVES) as u8, r.idx(got.len() + 2));
                let (mut want, mut have) = (vec![], vec![]);
                let wk = drive(got.iter().copied(), form, n, &mut |x| want.push(x));
                let k = guarded(|| w.arch(a).a_events_form(d, form, n, &mut |e| have.push(e.raw()))).unwrap_or(usize::MAX);
                cx.ck(have == want && k == wk, m, p, || format!("{} log of archetype {}, iterator form {} n {}: {} items (count {}), expected {} (count {})", if d { "destroyed" } else { "created" }, m.meta.archs[a].name, form, n, have.len(), k, want.len(), wk));
            }
            if cx.failed() { return; }
        }
    }
    if !world_level { return; }
    for d in [false, true] {
        let mut seq: Vec<(Option<Raw>, (usize, Option<usize>))> = vec![];
        if guarded(|| w.w_events(d, &mut |e, h| seq.push((e.map(|x| x.raw()), h)))).is_err() { cx.bad(m, p, || "world event iterator panicked".into()); return; }
        let mut exp: Vec<Raw> = m.archs.iter().flat_map(|a| if d { a.destroyed.iter().copied() } else { a.created.iter().copied() }).collect();
        let n = exp.len();
        let mut got: Vec<Raw> = vec![];
        for (i, (e, h)) in seq.iter().enumerate() {
            let left = n.saturating_sub(i);
            if let Some(e) = e { got.push(*e); }
            cx.ck(*h == (left, Some(left)), m, p, || format!("world {} iterator: size_hint {:?} at position {} of {}", if d { "destroyed" } else { "created" }, h, i, n));
            cx.ck(e.is_some() == (i < n), m, p, || format!("world {} iterator: position {} of {} gives {:?}", if d { "destroyed" } else { "created" }, i, n, e));
        }
        {
            let (form, n) = (r.below(N_DRIVES) as u8, r.idx(got.len() + 2));
            let (mut want, mut have) = (vec![], vec![]);
            let wk = drive(got.iter().copied(), form, n, &mut |x| want.push(x));
            let k = guarded(|| w.w_events_form(d, form, n, &mut |e| have.push(e.raw()))).unwrap_or(usize::MAX);
            cx.ck(have == want && k == wk, m, p, || format!("world {} iterator form {} n {}: {} items (count {}), expected {} (count {})", if d { "destroyed" } else { "created" }, form, n, have.len(), k, want.len(), wk));
        }
        got.sort();
        exp.sort();
        cx.ck(got == exp, m, p, || format!("world {} iterator yields {} handles, expected {}", if d { "destroyed" } else { "created" }, got.len(), exp.len()));
    }
}

impl Exec {
    pub fn new() -> Self {
        reg(|r| *r = Reg::default());
        FIRED.with(|f| f.set([0; N_FK]));
        Exec { cx: Cx::new(), worlds: BTreeMap::new(), base_blocks: alloc::lib_blocks() }
    }

    /// Conservation: what is alive is exactly what the worlds must hold.
    fn conserve(&mut self, m: Option<u64>) {
        if self.cx.failed() { return; }
        let (mut n, mut z) = (0i64, 0i64);
        for s in self.worlds.values() {
            for e in s.m.ents.values() {
                for (c, k) in s.m.meta.archs[e.arch].kinds.iter().enumerate() {
                    if k.tracked { if k.zst { z += 1 } else { n += 1; debug_assert!(e.iids[c] != 0); } }
                }
            }
        }
        let (live, zl, es) = reg(|r| (r.live, r.zst_live, r.errs.first().cloned()));
        self.cx.st.oracle += 1;
        if live != n || zl != z || es.is_some() {
            let (live, zl) = (live, zl);
            let lin = self.worlds.values().any(|s| s.m.lineage);
            let pan = self.cx.any_panic;
            let dummy = MWorld { panicked: pan, lineage: lin, ..MWorld::new(m.unwrap_or(u64::MAX), 0, crate::worlds::meta(0)) };
            self.cx.bad(&dummy, C04, || match es { Some(e) => e, None => format!("{} component values (and {} zero-sized ones) are alive, but the worlds hold {} and {}", live, zl, n, z) });
        }
    }

    pub fn step(&mut self, st: &Step, no: usize) {
        self.cx.step = no;
        self.cx.op_props = 0;
        self.cx.st.ops[st.op as usize] += 1;
        self.cx.sched.add((st.op as u64) << 8 | st.task as u64);
        let g = |i: usize| st.a.get(i).copied().unwrap_or(0);
        if st.op == Op::arm {
            if !self.cx.no_fault { self.cx.arm = Some((g(0) as u8, g(1).max(1))); }
            return;
        }
        // Arm the fault for this operation only.
        let arm = self.cx.arm.take();
        let mut into = false;
        if let Some((k, n)) = arm {
            match k {
                FK_CLOSURE => self.cx.clos = n,
                FK_CLONE => reg(|r| r.arm_clone = n),
                FK_DROP => reg(|r| r.arm_drop = n),
                _ => into = true,
            }
        }
        let before = FIRED.with(|f| f.get());
        let salt = *st.a.last().unwrap_or(&0);
        let mut touched = None;
        match st.op {
            Op::neww => self.op_neww(g(0), g(1) as usize, g(2) as u8, salt),
            Op::dropw => self.op_dropw(g(0), false, salt),
            Op::unwinddrop => self.op_dropw(g(0), true, salt),
            Op::clone => self.op_clone(g(0), g(1), salt),
            Op::cloneall => { let ids: Vec<u64> = self.worlds.keys().copied().collect(); for (i, x) in ids.into_iter().enumerate() { if !self.cx.failed() { self.op_clone(x, g(0) + i as u64, salt); } } }
            _ => {
                if let Some(mut sl) = self.worlds.remove(&g(0)) {
                    touched = Some(g(0));
                    op_on(&mut self.cx, &mut sl, st, salt, into);
                    reg(|r| { r.arm_clone = 0; r.arm_drop = 0; });
                    self.cx.clos = 0;
                    if !self.cx.failed() { audit(&mut self.cx, &mut sl, mix(salt ^ 0xaaaa), 0); }
                    self.worlds.insert(g(0), sl);
                }
            }
        }
        reg(|r| { r.arm_clone = 0; r.arm_drop = 0; });
        self.cx.clos = 0;
        if FIRED.with(|f| f.get()) != before { self.cx.any_panic = true; }
        // No operation on one world is observable in another.
        if let Some(t) = touched {
            let ids: Vec<u64> = self.worlds.keys().copied().filter(|x| *x != t).collect();
            if !ids.is_empty() && mix(salt ^ 3) % 3 == 0 {
                let x = ids[(mix(salt ^ 4) % ids.len() as u64) as usize];
                let mut sl = self.worlds.remove(&x).unwrap();
                let rel = self.worlds[&t].m.root == sl.m.root;
                self.cx.op_props = if rel { C13 } else { 0 };
                audit(&mut self.cx, &mut sl, mix(salt ^ 5), 0);
                self.worlds.insert(x, sl);
            }
        }
        self.conserve(touched);
    }

    fn op_neww(&mut self, id: u64, kind: usize, form: u8, salt: u64) {
        if self.worlds.contains_key(&id) || kind >= crate::worlds::KINDS.len() { return; }
        if kind == 4 && !cfg!(feature = "32_components") { return; }
        let meta = crate::worlds::meta(kind);
        let mut r = Rng::new(salt);
        let caps: Vec<usize> = meta.archs.iter().map(|_| *r.pick(&[0usize, 0, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 40])).collect();
        let m = MWorld::new(id, kind, meta);
        match guarded(|| crate::worlds::make(kind, form, &caps)) {
            Ok(w) => {
                let mut sl = Slot { w, m };
                for (a, c) in caps.iter().enumerate() {
                    let c = if form == 1 || form == 2 { 0 } else { *c };
                    sl.m.archs[a].cap0 = c;
                    let cap = sl.w.arch(a).a_capacity();
                    sl.m.archs[a].cap = cap;
                    self.cx.ck(cap >= c, &sl.m, C12, || format!("with_capacity({}) gives capacity() {}", c, cap));
                }
                audit(&mut self.cx, &mut sl, salt, 0);
                self.worlds.insert(id, sl);
            }
            Err(_) => self.cx.bad(&m, C12, || "creating a world panicked".into()),
        }
    }

    fn op_dropw(&mut self, id: u64, unwinding: bool, _salt: u64) {
        let Some(sl) = self.worlds.remove(&id) else { return };
        let Slot { w, m } = sl;
        let r = if unwinding {
            // The world is dropped by a panic that unwinds through its owner.
            reg(|r| r.arm_drop = 0);
            guarded(move || { let _own = w; injected(FK_UNWIND); })
        } else { guarded(move || drop(w)) };
        match r {
            Ok(()) => {}
            Err(Pan::Inj(_)) => { self.cx.any_panic = true; }
            Err(Pan::Lib(s)) => self.cx.bad(&m, C04, || format!("dropping the world panicked: {}", s)),
        }
        let mut m = m;
        m.panicked |= self.cx.any_panic;
        errs(&mut self.cx, &m);
        for e in m.ents.values() {
            for i in &e.iids { if *i != 0 && reg(|r| r.st[*i as usize]) != 2 { self.cx.bad(&m, C04, || format!("a component of L{} was not dropped with its world", e.label)); return; } }
        }
        self.cx.st.oracle += 1;
    }

    fn op_clone(&mut self, id: u64, id2: u64, salt: u64) {
        if self.worlds.contains_key(&id2) || !self.worlds.contains_key(&id) { return; }
        match self.cx.cloneaway {
            1 => return,
            2 => { if let Some(mut s) = self.worlds.remove(&id) { s.m.id = id2; self.worlds.insert(id2, s); } return; }
            _ => {}
        }
        let mut sl = self.worlds.remove(&id).unwrap();
        let cx = &mut self.cx;
        cx.st.clones += 1;
        cx.op_props = C13;
        let z0 = reg(|r| { r.log_clones = true; r.clones.clear(); r.zst_clones });
        // Into a fresh world, or (clone_from) over one of the others, which ends like a dropped world.
        let form = (mix(salt ^ 0xc10e) % 9) as u8;
        let other: Option<u64> = if form < 6 { None } else { let v: Vec<u64> = self.worlds.iter().filter(|(_, s)| s.m.meta.name == sl.m.meta.name).map(|(k, _)| *k).collect(); if v.is_empty() { None } else { Some(v[(mix(salt ^ 0xc10f) % v.len() as u64) as usize]) } };
        let target = other.and_then(|k| self.worlds.remove(&k));
        let mut old_m = None;
        let res = match target {
            None => { let w = &sl.w; guarded(|| w.clone_world(form % 6)) }
            Some(Slot { w: mut t, m }) => {
                old_m = Some(m);
                // Not both: a second panic while the first one unwinds ends the process.
                reg(|r| if r.arm_clone != 0 { r.arm_drop = 0 });
                let w = &sl.w;
                guarded(move || { t.become_clone(&**w, (form == 8) as u8); t })
            }
        };
        let (log, z1) = reg(|r| { r.log_clones = false; r.arm_clone = 0; r.arm_drop = 0; (std::mem::take(&mut r.clones), r.zst_clones) });
        if let Some(om) = &old_m {
            let kept = om.ents.values().find(|e| e.iids.iter().any(|i| *i != 0 && reg(|r| r.st[*i as usize]) != 2)).map(|e| e.label);
            if let Some(l) = kept { cx.bad(om, C04 | C13, || format!("a component of L{} was not dropped when its world was replaced by clone_from", l)); }
        }
        match res {
            Err(Pan::Inj(_)) => { cx.any_panic = true; sl.m.panicked = true; cx.op_props = 0; audit(cx, &mut sl, salt, C10); }
            Err(Pan::Lib(s)) => cx.bad(&sl.m, C11, || format!("clone panicked with nothing borrowed: {}", s)),
            Ok(w2) => {
                let mut m2 = sl.m.clone();
                m2.id = id2;
                m2.lineage = true;
                sl.m.lineage = true;
                // Every live component exactly once.
                let mut map: Map<u64, u64> = Map::default();
                let mut twice = false;
                for (f, t) in &log { twice |= map.insert(*f, *t).is_some(); }
                let (mut need, mut zneed, mut missing) = (0usize, 0u64, false);
                for e in m2.ents.values_mut() {
                    for (c, i) in e.iids.iter_mut().enumerate() {
                        let k = m2.meta.archs[e.arch].kinds[c];
                        if k.tracked && k.zst { zneed += 1 }
                        if *i != 0 { need += 1; match map.get(i) { Some(t) => *i = *t, None => missing = true } }
                    }
                }
                cx.ck(!twice && !missing && log.len() == need, &sl.m, C04 | C13, || format!("clone made {} component clones for {} live components (twice={}, missing={})", log.len(), need, twice, missing));
                cx.ck(z1 - z0 == zneed, &sl.m, C04 | C13, || format!("clone made {} clones of {} zero-sized components", z1 - z0, zneed));
                for (a, ma) in m2.archs.iter_mut().enumerate() {
                    ma.cloned = true;
                    if cx.failed() { break; }
                    let (x, y) = (sl.w.arch(a), w2.arch(a));
                    cx.ck(x.a_len() == y.a_len() && x.a_capacity() == y.a_capacity(), &sl.m, C13 | C12, || format!("clone: archetype {} has len {} capacity {}, the original {} and {}", a, y.a_len(), y.a_capacity(), x.a_len(), x.a_capacity()));
                    let (mut ex, mut ey) = (vec![], vec![]);
                    x.a_entities(&mut |e| ex.push(e.raw()));
                    y.a_entities(&mut |e| ey.push(e.raw()));
                    cx.ck(ex == ey, &sl.m, C13, || format!("clone: archetype {} lists different entities", a));
                }
                let mut s2 = Slot { w: w2, m: m2 };
                audit(cx, &mut s2, salt, C13);
                audit(cx, &mut sl, mix(salt), C13);
                // Every handle, direct handles included, answers alike in both.
                let mut r = Rng::new(salt);
                let mut ls: Vec<u64> = s2.m.archs.iter().flat_map(|a| a.live.iter().copied()).collect();
                while ls.len() > 24 { let i = r.idx(ls.len()); ls.swap_remove(i); }
                for l in ls {
                    if cx.failed() { break; }
                    let h = sl.m.ents[&l].h;
                    let a = guarded(|| sl.w.w_to_direct(Key::any(h)));
                    let b = guarded(|| s2.w.w_to_direct(Key::any(h)));
                    let same_d = matches!((&a, &b), (Ok(Some(a)), Ok(Some(b))) if a == b);
                    cx.ck(same_d, &sl.m, C13, || format!("clone: L{} has a different direct handle, or none", l));
                    probe_path(cx, &mut s2, EntP::E(h), None, r.below(N_PATHS), r.next(), Prov::Own);
                }
                let mut ms: Vec<Mint> = s2.m.mints.values().copied().collect();
                ms.sort_by_key(|m| m.did);
                while ms.len() > 16 { let i = r.idx(ms.len()); ms.remove(i); }
                for mi in ms {
                    if cx.failed() { break; }
                    let a = guarded(|| sl.w.w_contains(Key::dany(mi.h)));
                    let b = guarded(|| s2.w.w_contains(Key::dany(mi.h)));
                    let same_d = matches!((&a, &b), (Ok(a), Ok(b)) if a == b) || (a.is_err() && b.is_err());
                    cx.ck(same_d, &sl.m, C13, || "clone: a direct handle is accepted by only one of the two".into());
                    probe_path(cx, &mut s2, EntP::D(mi.h), Some(mi), r.below(N_PATHS), r.next(), Prov::Own);
                }
                self.worlds.insert(id2, s2);
            }
        }
        self.worlds.insert(id, sl);
    }

    /// End of a run: check everything, drop every world, and nothing may be left.
    pub fn finish(&mut self, salt: u64) {
        self.cx.arm = None;
        self.cx.op_props = 0;
        let ids: Vec<u64> = self.worlds.keys().copied().collect();
        for id in &ids {
            if self.cx.failed() { break; }
            let mut sl = self.worlds.remove(id).unwrap();
            heavy(&mut self.cx, &mut sl, mix(salt ^ id));
            self.worlds.insert(*id, sl);
        }
        self.conserve(None);
        for id in ids {
            if self.cx.failed() { break; }
            self.op_dropw(id, false, 0);
            self.conserve(None);
        }
        if self.cx.failed() {
            // The remaining worlds may be corrupt; leak them rather than run their destructors.
            for (_, s) in std::mem::take(&mut self.worlds) { std::mem::forget(s.w); }
            return;
        }
        let left = alloc::lib_blocks() - self.base_blocks;
        if left != 0 && !self.cx.any_panic {
            let d = MWorld::new(u64::MAX, 0, crate::worlds::meta(0));
            self.cx.bad(&d, C04, || format!("{} heap blocks allocated by the library were never freed", left));
        }
    }
}

/// Random probes of everything known about a world.
pub fn heavy(cx: &mut Cx, sl: &mut Slot, salt: u64) {
    let mut r = Rng::new(salt);
    audit(cx, sl, r.next(), 0);
    let mut ls: Vec<u64> = cx.labels.keys().copied().collect();
    ls.sort();
    while ls.len() > 60 { let i = r.idx(ls.len()); ls.swap_remove(i); }
    for l in ls {
        if cx.failed() { return; }
        let rec = cx.labels[&l];
        let prov = if sl.m.issued.contains(&rec.h.raw()) { Prov::Own } else { Prov::Foreign };
        probe_path(cx, sl, EntP::E(rec.h), None, r.below(N_PATHS), r.next(), prov);
    }
    let mut ds: Vec<u64> = cx.dids.keys().copied().collect();
    ds.sort();
    while ds.len() > 30 { let i = r.idx(ds.len()); ds.swap_remove(i); }
    for d in ds {
        if cx.failed() { return; }
        probe_did(cx, sl, d, r.below(N_PATHS), r.next());
    }
    audit(cx, sl, r.next(), 0);
}

fn probe_did(cx: &mut Cx, sl: &mut Slot, did: u64, path: u64, salt: u64) {
    let Some(rec) = cx.dids.get(&did).copied() else { return };
    let mint = sl.m.mints.get(&did).copied();
    probe_path(cx, sl, EntP::D(rec.h), mint, path, salt, if mint.is_some() { Prov::Own } else { Prov::Foreign });
}

// ---------------------------------------------------------------- operations on one world

fn op_on(cx: &mut Cx, sl: &mut Slot, st: &Step, salt: u64, into: bool) {
    let g = |i: usize| st.a.get(i).copied().unwrap_or(0);
    let mut r = Rng::new(salt);
    let na = sl.m.archs.len() as u64;
    match st.op {
        Op::create | Op::createwc => {
            let a = (g(1) % na) as usize;
            for i in 0..g(3).min(4096) { if cx.failed() { break; } op_create(cx, sl, a, g(2) + i, mix2(salt, i), st.op == Op::createwc, into && i == 0); }
        }
        Op::fill => {
            let a = (g(1) % na) as usize;
            // Refill to capacity: exactly the free positions are usable without growing.
            let (len, cap) = (sl.m.archs[a].live.len(), sl.w.arch(a).a_capacity());
            let room = cap.saturating_sub(len) as u64;
            cx.op_props = if sl.m.lineage { C13 } else { 0 };
            for i in 0..(room + 1).min(3000) { if cx.failed() { break; } op_create(cx, sl, a, g(2) + i, mix2(salt, i), true, false); }
        }
        Op::drain => {
            let a = (g(1) % na) as usize;
            let o0 = cx.st.overflow_panics;
            for _ in 0..g(2) {
                let n = sl.m.archs[a].live.len();
                if n == 0 || cx.failed() || cx.st.overflow_panics > o0 + 3 { break; }
                let l = sl.m.archs[a].live[r.idx(n)];
                op_destroy(cx, sl, EntP::E(sl.m.ents[&l].h), None, Prov::Own, r.next());
            }
        }
        Op::destroy => {
            if let Some(rec) = cx.labels.get(&g(1)).copied() {
                let prov = if sl.m.issued.contains(&rec.h.raw()) { Prov::Own } else { Prov::Foreign };
                op_destroy(cx, sl, EntP::E(rec.h), None, prov, salt);
            }
        }
        Op::destroyd => {
            if let Some(rec) = cx.dids.get(&g(1)).copied() {
                let mint = sl.m.mints.get(&g(1)).copied();
                op_destroy(cx, sl, EntP::D(rec.h), mint, if mint.is_some() { Prov::Own } else { Prov::Foreign }, salt);
            }
        }
        Op::probe => {
            if let Some(rec) = cx.labels.get(&g(1)).copied() {
                let prov = if sl.m.issued.contains(&rec.h.raw()) { Prov::Own } else { Prov::Foreign };
                for p in 0..N_PATHS { if cx.failed() { break; } probe_path(cx, sl, EntP::E(rec.h), None, p, r.next(), prov); }
            }
        }
        Op::probed => { for p in 0..N_PATHS { if cx.failed() { break; } probe_did(cx, sl, g(1), p, r.next()); } }
        Op::find => {
            if let Some(rec) = cx.labels.get(&g(1)).copied() {
                let prov = if sl.m.issued.contains(&rec.h.raw()) { Prov::Own } else { Prov::Foreign };
                probe_path(cx, sl, EntP::E(rec.h), None, 9 + r.below(2), r.next(), prov);
            }
        }
        Op::findd => probe_did(cx, sl, g(1), 9 + r.below(2), r.next()),
        Op::todirect => {
            // Issues direct handle `did` for L.
            let Some(rec) = cx.labels.get(&g(1)).copied() else { return };
            let did = g(2);
            let Some(l) = sl.m.by_raw.get(&rec.h.raw()).copied() else { return };
            let k = key_for(&sl.m, EntP::E(rec.h), r.next());
            let a = sl.m.ents[&l].arch;
            let res = if r.chance(1, 2) { guarded(|| sl.w.w_to_direct(k)) } else { guarded(|| sl.w.arch(a).a_to_direct(k)) };
            match res {
                Ok(Some(d)) => {
                    cx.dig.add(hash_d(&d));
                    sl.m.mint(did, d, l, false);
                    cx.dids.insert(did, DRec { h: d, wid: sl.m.id, root: sl.m.root });
                    probe_did(cx, sl, did, r.below(N_PATHS), r.next());
                }
                _ => cx.bad(&sl.m, C01 | C09, || format!("to_direct refused live L{}", l)),
            }
        }
        Op::iter | Op::iterd => {
            let q = (g(1) as usize) % sl.m.meta.queries.len();
            op_iter(cx, sl, st.op == Op::iterd, q, g(2), salt);
        }
        Op::sneaky => { if !sl.m.meta.sneaky.is_empty() { let s = g(1) as usize % sl.m.meta.sneaky.len(); op_sneaky(cx, sl, s, g(2), g(3), salt); } }
        Op::access => op_access(cx, sl, (g(1) % na) as usize, salt),
        Op::audit => heavy(cx, sl, salt),
        Op::clear => {
            cx.op_props = C17;
            #[cfg(feature = "events")]
            {
                let a = (g(1) % (na + 1)) as usize;
                let res = if a as u64 == na { guarded(|| sl.w.w_clear_events()) } else { guarded(|| sl.w.arch_mut(a).a_clear_events()) };
                if res.is_err() { cx.bad(&sl.m, C17, || "clear_events panicked".into()); }
                for (i, x) in sl.m.archs.iter_mut().enumerate() { if a as u64 == na || i == a { x.created.clear(); x.destroyed.clear(); } }
            }
            #[cfg(not(feature = "events"))]
            for (i, x) in sl.m.archs.iter_mut().enumerate() { if g(1) % (na + 1) == na || i as u64 == g(1) % (na + 1) { x.created.clear(); x.destroyed.clear(); } }
        }
        Op::preset => {
            let a = (g(1) % na) as usize;
            if cx.no_overflow || cx.no_fault || !sl.m.archs[a].live.is_empty() { return; }
            #[cfg(gecs_verif)]
            {
                let s = std::num::NonZeroU32::new(g(2) as u32).unwrap_or(std::num::NonZeroU32::MIN);
                let v = std::num::NonZeroU32::new(g(3) as u32).unwrap_or(std::num::NonZeroU32::MIN);
                // Generations only ever move forward.
                if (v.get() as u64) < sl.m.archs[a].aver || sl.m.issued.iter().any(|x| sl.m.meta.ids[a] as u32 == x.0 & 0xff && x.1 >= s.get()) { return; }
                sl.w.arch_mut(a).a_preset(s, v);
                let ma = &mut sl.m.archs[a];
                ma.aver = v.get() as u64;
                ma.structs += 1;
                ma.removals += 1;
                cx.st.presets += 1;
                if WRAPPING {
                    // A preset stands for up to 2^32 uses: what was issued before it may match again, what is issued after it may not.
                    sl.m.wrapped = true;
                    let id = sl.m.meta.ids[a] as u32;
                    sl.m.issued.retain(|x| x.0 & 0xff != id);
                    for mi in sl.m.mints.values_mut() { if mi.arch == a { mi.ancient = true; } }
                }
            }
        }
        Op::forge => op_forge(cx, sl, salt),
        Op::bp => {
            let mut held = vec![];
            let mut bp = Bp { mask: g(2), n: g(1).min(64), i: 0, salt };
            cx.op_props = C11;
            let Slot { w, m } = sl;
            bphase(cx, m, w.as_ref(), &mut held, &mut bp, 0);
            // Every borrow is over.
            for a in 0..m.archs.len() {
                for c in 0..m.meta.archs[a].kinds.len() {
                    if cx.failed() { return; }
                    let res = guarded(|| drop(w.arch(a).a_guard_slice(c, true)));
                    cx.ck(res.is_ok(), m, C11, || format!("column {} of archetype {} is still refused after every guard is gone", c, a));
                }
            }
        }
        _ => {}
    }
    if let Op::iterd = st.op { cx.op_props |= C07; }
}

fn op_create(cx: &mut Cx, sl: &mut Slot, a: usize, label: u64, salt: u64, wc: bool, into: bool) {
    if cx.labels.contains_key(&label) { return; }
    let Slot { w, m } = sl;
    let mut r = Rng::new(salt);
    let v = vals_for(m, a, r.next());
    let (len0, cap0) = { let ar = w.arch(a); (ar.a_len(), ar.a_capacity()) };
    let form = if into { 255 } else { r.below(4) as u8 };
    let level = r.chance(1, 2);
    let mut ids = vec![];
    let mut out = vec![];
    let within = m.archs[a].creations < m.archs[a].cap0 as u64 && !m.archs[a].cloned;
    let re0 = alloc::reallocs();
    let res = if wc {
        if level { guarded(|| w.w_create_wc(a, &v, &mut ids, form, &mut out)) } else { guarded(|| w.arch_mut(a).a_create_wc(&v, &mut ids, form, &mut out)) }
    } else if level { guarded(|| Some(w.w_create(a, &v, &mut ids, form))) } else { guarded(|| Some(w.arch_mut(a).a_create(&v, &mut ids, form))) };
    let re1 = alloc::reallocs();
    let cap1 = w.arch(a).a_capacity();
    let nm = m.meta.archs[a].name;
    match res {
        Ok(Some(h)) => {
            created(cx, m, a, label, h, v, ids);
            if wc {
                cx.ck(len0 < cap0, m, C12, || format!("{}: create_within_capacity succeeded with len {} = capacity {}", nm, len0, cap0));
                cx.ck(cap0 == cap1, m, C12, || format!("{}: create_within_capacity changed capacity() from {} to {}", nm, cap0, cap1));
            }
            if cap1 != cap0 { m.archs[a].addr.clear(); cx.st.growths += 1; }
            cx.ck(cap1 >= cap0, m, C12, || format!("{}: capacity() fell from {} to {}", nm, cap0, cap1));
            if within {
                cx.ck(cap1 == cap0 && (EVENTS || re0 == re1), m, C12, || format!("{}: creation {} of with_capacity({}) reallocated", nm, m.archs[a].creations, m.archs[a].cap0));
                let cols = m.meta.archs[a].kinds.len();
                let addr: Vec<usize> = (0..cols).map(|c| guarded(|| w.arch_mut(a).a_slice_addr(c)).unwrap_or(0)).collect();
                if m.archs[a].live.len() > 1 && m.archs[a].addr.len() == cols { cx.ck(m.archs[a].addr == addr, m, C12, || format!("{}: components moved within with_capacity({})", nm, m.archs[a].cap0)); }
                m.archs[a].addr = addr;
            }
        }
        Ok(None) => {
            cx.st.wc_refused += 1;
            cx.dig.add(2);
            if cx.ck(wc && len0 >= cap0, m, C12, || format!("{}: create_within_capacity refused with len {} below capacity {}", nm, len0, cap0)) && form != 255 {
                let ok = out.len() == v.len() && out.iter().enumerate().all(|(i, x)| x.ok && x.val == v[i] && x.iid == ids[i]);
                cx.ck(ok, m, C12 | C04 | C02, || format!("{}: create_within_capacity did not return its argument", nm));
            }
            cx.ck(cap0 == cap1, m, C12, || format!("{}: refused create_within_capacity changed capacity()", nm));
        }
        Err(Pan::Inj(_)) => { m.panicked = true; cx.any_panic = true; cx.dig.add(3); }
        Err(Pan::Lib(s)) => cx.bad(m, C12, || format!("{}: create panicked at len {} capacity {}: {}", nm, len0, cap0, s)),
    }
}

fn op_destroy(cx: &mut Cx, sl: &mut Slot, h: EntP, mint: Option<Mint>, prov: Prov, salt: u64) {
    let mut r = Rng::new(salt);
    let id = match h { EntP::E(h) => h.archetype_id(), EntP::D(h) => h.archetype_id() };
    let own = sl.m.arch_of_id(id);
    let k = key_for(&sl.m, h, r.next());
    let wnt = want(&sl.m, h, mint.as_ref());
    // Whom would it destroy? (Asked of the library for handles the property leaves open.)
    let target = match wnt {
        Want::Must(l) => Some(l),
        Want::Reject => None,
        Want::Unknown => { let EntP::D(d) = h else { unreachable!() }; direct_owner(sl, d) }
    };
    let unknown = matches!(wnt, Want::Unknown);
    let level = r.chance(1, 2) || own.is_none();
    let alien = !level && k.typed.is_none() && r.chance(1, 8);
    let at = if alien { r.idx(sl.m.archs.len()) } else { own.unwrap_or(0) };
    let aligned = level || Some(at) == own;
    let form = r.next() as u8;
    let mut out = vec![];
    let typed_out = k.typed.is_some() || !level;
    let exhausted = !WRAPPING && target.map_or(false, |t| sl.m.exhausted(t));
    let Slot { w, m } = sl;
    // Direct handles issued right before the removal: of the victim and of some other entity.
    let pre: Vec<(u64, EntityDirectAny)> = target.iter().flat_map(|t| { let v = &m.archs[m.ents[t].arch].live; [*t, v[r.idx(v.len())]] })
        .filter_map(|l| guarded(|| w.w_to_direct(Key::any(m.ents[&l].h))).ok().flatten().map(|d| (l, d))).collect();
    let res = if level { guarded(|| w.w_destroy(k, form, &mut out)) } else { guarded(|| w.arch_mut(at).a_destroy(k, form, &mut out)) };
    let p = any_props(h, prov) | mint.map_or(0, |m| if m.by_iterd { C07 } else { 0 });
    match res {
        Ok(true) => {
            cx.dig.add(1);
            if !aligned { cx.bad(m, p | C03, || format!("destroy in archetype {} accepted {}", at, hs(h, m))); return; }
            let Some(l) = target else { cx.bad(m, p | C03 | C01, || format!("destroy accepted {}, which must be rejected", hs(h, m))); return; };
            if unknown { if let Some(mi) = mint { if mi.label != l && !mi.ancient { cx.bad(m, C09 | C03, || format!("destroy with {} hit L{}, but it was issued for L{}", hs(h, m), l, mi.label)); return; } } }
            if typed_out { check_returned(cx, m, l, &out, "destroy"); }
            let a = m.ents[&l].arch;
            if *m.archs[a].live.last().unwrap() != l { cx.st.relocs += 1; }
            let e = m.remove(l);
            for i in e.iids { if i != 0 && reg(|r| r.st[i as usize]) != 2 { cx.bad(m, C04, || format!("destroyed L{} but a component is still alive", l)); } }
            for (x, d) in pre { gone_direct(cx, w.as_ref(), m, x, d, if x == l { C01 } else { 0 }, "destroy"); }
        }
        Ok(false) => {
            cx.dig.add(0);
            cx.ck(target.is_none() || !aligned, m, p, || format!("destroy rejected {}, which must be accepted", hs(h, m)));
            if target.is_none() { match prov { Prov::Own => cx.st.stale += 1, Prov::Foreign => cx.st.foreign += 1, Prov::Forged => cx.st.forged += 1 } }
        }
        Err(Pan::Inj(_)) => {
            // A component's Drop panicked (dynamically typed destroy drops the value itself), or the caller's.
            m.panicked = true;
            cx.any_panic = true;
            if let Some(l) = target { resync(cx, sl, l); }
        }
        Err(Pan::Lib(s)) => {
            cx.st.lib_panics += 1;
            if exhausted { cx.st.overflow_panics += 1; m.panicked = true; cx.any_panic = true; cx.dig.add(4); resync(cx, sl, target.unwrap()); return; }
            cx.dig.add(0);
            let ok = (prov != Prov::Own || (m.wrapped && matches!(h, EntP::D(_)))) && target.is_none();
            cx.ck(ok, m, p, || format!("destroy panicked ({}) for {}", s, hs(h, m)));
        }
    }
}

/// A direct handle that was issued for `l` before a removal from its archetype must be dead.
fn gone_direct(cx: &mut Cx, w: &dyn WorldDyn, m: &MWorld, l: u64, d: EntityDirectAny, p: Props, what: &str) {
    match guarded(|| w.w_contains(Key::dany(d))) {
        Ok(false) => {}
        Err(_) if cfg!(debug_assertions) => {}
        _ => cx.bad(m, C09 | p, || format!("the direct handle that L{} had right before {} is still accepted", l, what)),
    }
}

/// After a panic: the entity is either fully present or fully absent; find out which.
fn resync(cx: &mut Cx, sl: &mut Slot, l: u64) {
    let h = sl.m.ents[&l].h;
    match guarded(|| sl.w.w_contains(Key::any(h))) {
        Ok(true) => {}
        Ok(false) => {
            let e = sl.m.remove(l);
            for i in e.iids { if i != 0 && reg(|r| r.st[i as usize]) != 2 { cx.bad(&sl.m, C04 | C10, || format!("L{} is gone after a panic but its component was not dropped", l)); } }
        }
        Err(_) => cx.bad(&sl.m, C10 | C01, || "contains panicked after an earlier panic".into()),
    }
}

fn op_iter(cx: &mut Cx, sl: &mut Slot, destroys: bool, q: usize, did0: u64, salt: u64) {
    let mut r = Rng::new(salt);
    let spec = &sl.m.meta.queries[q];
    let unit_ok = q < 2;
    let mode = if destroys { if unit_ok && r.chance(1, 8) { 5 + r.below(2) as usize } else { 4 } } else { match r.below(6) { 0 | 1 => 0, 2 => if unit_ok { 1 } else { 0 }, 3 | 4 => 2, _ => if unit_ok { 3 } else { 2 } } };
    let what = ["ecs_iter!", "ecs_iter!", "ecs_iter_borrow!", "ecs_iter_borrow!", "ecs_iter_destroy!", "ecs_iter_destroy!", "ecs_iter_destroy!"][mode];
    let start: Vec<u64> = (0..sl.m.archs.len()).filter(|a| spec.binds[*a].is_some()).flat_map(|a| sl.m.archs[a].live.iter().copied()).collect();
    let total = start.len() as u64;
    let can_break = mode != 1 && mode != 3 && mode != 6;
    let brk = if can_break && total > 0 && r.chance(1, 3) { Some(r.below(total)) } else { None };
    let dens = *r.pick(&[0u64, 1, 3, 4, 6, 8, 8]);
    let props = if mode >= 4 { C07 } else { C06 };
    if mode >= 4 {
        cx.op_props = C07;
        use gecs::prelude::EcsStepDestroy as D;
        let d = [D::Continue, D::Break, D::ContinueDestroy, D::BreakDestroy].map(|x| x.is_destroy());
        cx.ck(d == [false, false, true, true], &sl.m, C07, || "EcsStepDestroy::is_destroy is wrong".into());
    }
    let brk_destroy = r.chance(1, 2);
    let write = r.chance(1, 2);
    let Slot { w, m } = sl;
    let exhausted_any = !WRAPPING && mode == 4 && start.iter().any(|l| m.exhausted(*l) || m.archs[m.ents[l].arch].aver + total > u32::MAX as u64);
    let mut it = It { q, spec, salt: r.next(), what, props, seen: Set::default(), n: 0, brk, broke: false, destroys: mode == 4, dens, brk_destroy, pend: None,
        mints: vec![], did0, nd: 0, world: None, write, lab0: 0, nlab: 0, by_iterd: mode >= 4 };
    let pre: Vec<(u64, usize, u64, EntityDirectAny)> = if mode < 4 { vec![] } else {
        (0..m.archs.len()).filter(|a| !m.archs[*a].live.is_empty()).filter_map(|a| {
            let v = &m.archs[a].live;
            let l = v[r.idx(v.len())];
            guarded(|| w.w_to_direct(Key::any(m.ents[&l].h))).ok().flatten().map(|d| (l, a, m.archs[a].removals, d))
        }).collect()
    };
    let res = {
        let (cx, m) = (&mut *cx, &mut *m);
        match mode {
            0 => guarded(|| w.q_iter(q, &mut |v| visit(cx, m, &mut it, v))),
            1 => guarded(|| w.q_iter_unit(q, &mut |v| visit(cx, m, &mut it, v))),
            2 | 3 => {
                let wr: &dyn WorldDyn = w.as_ref();
                it.world = Some(wr);
                if mode == 2 { guarded(|| wr.q_iter_borrow(q, &mut |v| visit(cx, m, &mut it, v))) } else { guarded(|| wr.q_iter_borrow_unit(q, &mut |v| visit(cx, m, &mut it, v))) }
            }
            4 => guarded(|| w.q_iter_destroy(q, &mut |v| visit(cx, m, &mut it, v))),
            5 => guarded(|| w.q_iter_destroy_step(q, &mut |v| visit(cx, m, &mut it, v))),
            _ => guarded(|| w.q_iter_destroy_unit(q, &mut |v| visit(cx, m, &mut it, v))),
        }
    };
    it.world = None;
    let (n, broke, mints) = (it.n, it.broke, std::mem::take(&mut it.mints));
    let mut whole = false;
    match res {
        Ok(()) => { settle(m, &mut it); whole = true; }
        Err(Pan::Inj(_)) => { m.panicked = true; cx.any_panic = true; if let Some(l) = it.pend.take() { resync(cx, sl, l); } }
        Err(Pan::Lib(s)) => {
            cx.st.lib_panics += 1;
            match it.pend.take() {
                Some(l) if exhausted_any && m.exhausted(l) => { cx.st.overflow_panics += 1; m.panicked = true; cx.any_panic = true; resync(cx, sl, l); }
                _ => cx.bad(m, props | C11, || format!("{} panicked: {}", what, s)),
            }
        }
    }
    let m = &sl.m;
    if whole {
        cx.dig.add(n);
        if broke { cx.ck(n == brk.unwrap() + 1, m, props, || format!("{} visited {} entities with a break at {}", what, n, brk.unwrap())); }
        else {
            cx.ck(brk.is_none(), m, props, || format!("{} ended after {} of {} visits without a break", what, n, total));
            cx.ck(n == total, m, props, || format!("{} made {} visits for {} matching live entities", what, n, total));
        }
    } else { cx.ck(n <= total, m, props, || format!("{} made {} visits for {} matching live entities", what, n, total)); }
    for did in mints { if cx.failed() { return; } probe_did(cx, sl, did, r.below(N_PATHS), r.next()); }
    for (l, a, rem, d) in pre {
        if sl.m.archs[a].removals != rem { gone_direct(cx, sl.w.as_ref(), &sl.m, l, d, C07, "ecs_iter_destroy!"); }
        else if whole { let ok = guarded(|| sl.w.w_contains(Key::dany(d))); cx.ck(matches!(ok, Ok(true)), &sl.m, C09 | C07, || format!("ecs_iter_destroy! removed nothing from archetype {} but killed the direct handle of L{}", a, l)); }
    }
}

fn op_sneaky(cx: &mut Cx, sl: &mut Slot, s: usize, lab: u64, did0: u64, salt: u64) {
    let (q, oa) = sl.m.meta.sneaky[s];
    let spec = &sl.m.meta.queries[q];
    let mut r = Rng::new(salt);
    let kind = r.below(3) as u8;
    let start: Vec<u64> = (0..sl.m.archs.len()).filter(|a| spec.binds[*a].is_some()).flat_map(|a| sl.m.archs[a].live.iter().copied()).collect();
    let _ = oa;
    if start.is_empty() { return; }
    let total = start.len() as u64;
    let brk = if kind < 2 && r.chance(1, 3) { Some(r.below(total)) } else { None };
    let props = match kind { 0 => C06, 1 => C07, _ => C01 };
    let target = start[r.idx(start.len())];
    let h = sl.m.ents[&target].h;
    if kind == 1 && start.iter().any(|l| sl.m.exhausted(*l) || sl.m.archs[sl.m.ents[l].arch].aver + total > u32::MAX as u64) { return; }
    let Slot { w, m } = sl;
    let mut it = It { q, spec, salt: r.next(), what: ["ecs_iter! (nested)", "ecs_iter_destroy! (nested)", "ecs_find! (nested)"][kind as usize], props, seen: Set::default(), n: 0, brk, broke: false, destroys: kind == 1,
        dens: r.below(9), brk_destroy: r.chance(1, 2), pend: None, mints: vec![], did0, nd: 0, world: None, write: r.chance(1, 2), lab0: lab, nlab: 0, by_iterd: kind == 1 };
    if kind == 1 { cx.op_props = C07; }
    let res = { let (cx, m) = (&mut *cx, &mut *m); guarded(|| w.q_sneaky(s, kind, Key::any(h), &mut |v| visit(cx, m, &mut it, v))) };
    match res {
        Ok(()) => settle(m, &mut it),
        Err(Pan::Inj(_)) => { m.panicked = true; cx.any_panic = true; let p = it.pend.take(); if let Some(l) = p { resync(cx, sl, l); } return; }
        Err(Pan::Lib(s)) => { cx.bad(m, props, || format!("{} panicked: {}", it.what, s)); return; }
    }
    let want_n = if kind == 2 { 1 } else if it.broke { brk.unwrap() + 1 } else { total };
    cx.ck(it.n == want_n, m, props, || format!("{} made {} visits, expected {}", it.what, it.n, want_n));
    let mints = std::mem::take(&mut it.mints);
    for did in mints { if cx.failed() { return; } probe_did(cx, sl, did, r.below(N_PATHS), r.next()); }
}

/// Archetype::iter / iter_mut driven through iterator adaptors, which may use other methods than next.
fn op_adapted(cx: &mut Cx, sl: &mut Slot, a: usize, what: &'static str, mutable: bool, write: bool, wsalt: u64, salt: u64) {
    let mut r = Rng::new(salt);
    let Slot { w, m } = sl;
    let len = m.archs[a].live.len();
    let form = r.below(N_DRIVES) as u8;
    let n = if r.chance(1, 8) { r.idx(1000) } else { r.idx(len + 2) };
    let kinds = m.meta.archs[a].kinds;
    // The order of a plain pass, which the adaptors select from.
    let mut order: Vec<Raw> = vec![];
    let plain = guarded(|| w.arch_mut(a).a_iter(&mut |e, _| order.push(e.raw())));
    let mut want: Vec<Raw> = vec![];
    let want_k = drive(order.iter().copied(), form, n, &mut |x| want.push(x));
    let mut got: Vec<Raw> = vec![];
    let res = {
        let (cx, m) = (&mut *cx, &mut *m);
        guarded(|| if !mutable {
            w.arch_mut(a).a_iter_form(form, n, &mut |e, cs| {
                got.push(e.raw());
                let Some(l) = m.by_raw.get(&e.raw()).copied() else { cx.bad(m, C06, || format!("{} presented {} which is not alive", what, rw(e))); return };
                for (c, x) in cs.iter().enumerate() { same(cx, m, l, c, x.dget(), C06 | C02, what); }
            })
        } else {
            w.arch_mut(a).a_iter_mut_form(form, n, &mut |e, cs| {
                got.push(e.raw());
                let Some(l) = m.by_raw.get(&e.raw()).copied() else { cx.bad(m, C06, || format!("{} presented {} which is not alive", what, rw(e))); return };
                for (c, x) in cs.iter_mut().enumerate() {
                    same(cx, m, l, c, x.dget(), C06 | C02, what);
                    let s = mix2(wsalt, l * 64 + c as u64);
                    if write && s % 3 == 0 { let (v, i) = write_comp(&mut **x, kinds[c], s >> 3); let e = m.ents.get_mut(&l).unwrap(); e.vals[c] = v; e.iids[c] = i; }
                }
            })
        })
    };
    match (plain, res) {
        (Ok(()), Ok(k)) => {
            cx.dig.add(k as u64 * 1000 + got.len() as u64);
            cx.ck(got == want && k == want_k, m, C06, || format!("{} form {} n {} over {} entities yields {} items (count {}), expected {} (count {})", what, form, n, order.len(), got.len(), k, want.len(), want_k));
        }
        (Err(Pan::Lib(s)), _) | (_, Err(Pan::Lib(s))) => cx.bad(m, C06, || format!("{} form {} panicked: {}", what, form, s)),
        _ => { m.panicked = true; cx.any_panic = true; }
    }
}

/// Archetype-level bulk access: iter, iter_mut, all slices, slices, with writes.
fn op_access(cx: &mut Cx, sl: &mut Slot, a: usize, salt: u64) {
    let mut r = Rng::new(salt);
    let Slot { w, m } = sl;
    let n = m.archs[a].live.len();
    let kind = r.below(8);
    let wsalt = r.next();
    let write = r.chance(2, 3);
    let kinds = m.meta.archs[a].kinds;
    let mut seen: Set<u64> = Set::default();
    let mut cnt = 0usize;
    let what = ["Archetype::iter", "Archetype::iter_mut", "get_all_slices_mut", "slices", "iterator count", "Archetype::iter (adapted)", "Archetype::iter_mut (adapted)", "Archetype::iter_mut (adapted)"][kind as usize];
    if kind >= 5 { op_adapted(cx, sl, a, what, kind > 5, write, wsalt, r.next()); return; }
    let res = {
        let (cx, m) = (&mut *cx, &mut *m);
        let one = |cx: &mut Cx, m: &MWorld, e: EntityAny| -> Option<u64> {
            match m.by_raw.get(&e.raw()) {
                Some(l) if m.ents[l].arch == a => Some(*l),
                _ => { cx.bad(m, C06, || format!("{} presented {} which is not a live entity of the archetype", what, rw(e))); None }
            }
        };
        match kind {
            0 => guarded(|| w.arch_mut(a).a_iter(&mut |e, cs| {
                cnt += 1;
                let Some(l) = one(cx, m, e) else { return };
                let dup = !seen.insert(l);
                cx.ck(!dup, m, C06, || format!("{} presented L{} twice", what, l));
                for (c, x) in cs.iter().enumerate() { same(cx, m, l, c, x.dget(), C06 | C02, what); }
            })),
            1 => guarded(|| w.arch_mut(a).a_iter_mut(&mut |e, cs| {
                cnt += 1;
                let Some(l) = one(cx, m, e) else { return };
                let dup = !seen.insert(l);
                cx.ck(!dup, m, C06, || format!("{} presented L{} twice", what, l));
                for (c, x) in cs.iter_mut().enumerate() {
                    same(cx, m, l, c, x.dget(), C06 | C02, what);
                    let s = mix2(wsalt, l * 64 + c as u64);
                    if write && s % 3 == 0 { let (v, i) = write_comp(&mut **x, kinds[c], s >> 3); let e = m.ents.get_mut(&l).unwrap(); e.vals[c] = v; e.iids[c] = i; }
                }
            })),
            2 => guarded(|| {
                cnt = w.arch_mut(a).a_all_slices(&mut |e, c, x| {
                    let Some(l) = one(cx, m, e) else { return };
                    seen.insert(l);
                    same(cx, m, l, c, x.dget(), C06 | C02, what);
                    let s = mix2(wsalt, l * 64 + c as u64);
                    if write && s % 3 == 0 { let (v, i) = write_comp(x, kinds[c], s >> 3); let e = m.ents.get_mut(&l).unwrap(); e.vals[c] = v; e.iids[c] = i; }
                });
            }),
            3 => {
                let mut labels = vec![];
                w.arch(a).a_entities(&mut |e| if let Some(l) = one(cx, m, e) { labels.push(l) });
                for l in &labels { seen.insert(*l); }
                cnt = labels.len();
                let col = r.idx(kinds.len());
                let form = r.next() as u8;
                guarded(|| w.arch_mut(a).a_slice(col, form, &mut |s| {
                    cx.ck(s.len() == labels.len(), m, C06, || format!("slice of column {} has {} items for {} entities", col, s.len(), labels.len()));
                    if cx.failed() { return; }
                    for (i, l) in labels.iter().enumerate() {
                        same(cx, m, *l, col, s.get(i), C06 | C02, what);
                        let x = mix2(wsalt, *l);
                        if write && x % 2 == 0 {
                            let mut upd = None;
                            if s.with_mut(i, &mut |c| upd = Some(write_comp(c, kinds[col], x >> 3))) { let (v, iid) = upd.unwrap(); let e = m.ents.get_mut(l).unwrap(); e.vals[col] = v; e.iids[col] = iid; }
                        }
                    }
                }))
            }
            _ => guarded(|| {
                let x = w.arch_mut(a).a_iter_count(false);
                let y = w.arch_mut(a).a_iter_count(true);
                cnt = if x == y { x } else { usize::MAX };
                for l in &m.archs[a].live { seen.insert(*l); }
            }),
        }
    };
    match res {
        Ok(()) => { cx.dig.add(cnt as u64); cx.ck(cnt == n && seen.len() == n, m, C06, || format!("{} presented {} items ({} distinct) for {} live entities", what, cnt, seen.len(), n)); }
        Err(Pan::Inj(_)) => { m.panicked = true; cx.any_panic = true; }
        Err(Pan::Lib(s)) => cx.bad(m, C06, || format!("{} panicked: {}", what, s)),
    }
}

// ---------------------------------------------------------------- forged handles

fn op_forge(cx: &mut Cx, sl: &mut Slot, salt: u64) {
    let mut r = Rng::new(salt);
    let m = &sl.m;
    let a = r.idx(m.archs.len());
    let id = m.meta.ids[a] as u32;
    let live: Vec<Raw> = m.archs[a].live.iter().map(|l| m.ents[l].h.raw()).collect();
    let (len, cap) = (live.len() as u32, m.archs[a].cap as u32);
    let pick = |r: &mut Rng| if live.is_empty() { (id, 1) } else { live[r.idx(live.len())] };
    let mut iss: Vec<Raw> = m.issued.iter().copied().filter(|x| x.0 & 0xff == id).collect();
    iss.sort();
    let mut used_ids: Vec<u32> = m.meta.ids.iter().map(|x| *x as u32).collect();
    used_ids.push(r.below(256) as u32);
    let kind = r.below(8);
    let raw: Raw = match kind {
        0 => (r.next() as u32, r.next() as u32),
        1 => {
            let idx = *r.pick(&[0, len.wrapping_sub(1), len, cap.wrapping_sub(1), cap, cap + 1, 1 << 20, (1 << 24) - 1]) & 0xff_ffff;
            let pv = pick(&mut r).1;
            let v = *r.pick(&[1, 2, pv, u32::MAX, 3]);
            (idx << 8 | id, v)
        }
        2 => { let p = pick(&mut r); let idx = (p.0 >> 8).wrapping_add(*r.pick(&[1, 2, u32::MAX])) & 0xff_ffff; (idx << 8 | id, p.1.wrapping_add(*r.pick(&[0, 0, 1]))) }
        3 => { let p = pick(&mut r); (p.0 & !0xff | *r.pick(&used_ids), p.1) }
        4 => { let p = pick(&mut r); (p.0, match r.below(4) { 0 => p.1.wrapping_add(1), 1 => p.1.wrapping_sub(1), 2 => p.1 ^ 1 << r.below(32), _ => p.1 }) }
        // A freed position, with the generation its slot has now.
        5 | 6 => { if iss.is_empty() { (id, 1) } else { let p = iss[r.idx(iss.len())]; (p.0, p.1.wrapping_add(*r.pick(&[1, 1, 1, 0, 2]))) } }
        _ => { let idx = r.below(cap as u64 + 2) as u32; (idx << 8 | id, *r.pick(&[1, 2, 3, 4])) }
    };
    let Ok(h) = EntityAny::from_raw(raw) else { return };
    let issued = m.issued.contains(&h.raw());
    let prov = if issued { Prov::Own } else { Prov::Forged };
    cx.st.forged += 1;
    if kind == 3 && r.chance(1, 2) {
        return forge_unchecked(cx, sl, h, a, r.next());
    }
    if r.chance(1, 6) { op_destroy(cx, sl, EntP::E(h), None, prov, r.next()); return; }
    let n = 1 + r.below(4);
    for _ in 0..n { if cx.failed() { return; } probe_path(cx, sl, EntP::E(h), None, r.below(N_PATHS), r.next(), prov); }
    // Direct handles of this world converted to other archetypes, unchecked.
    if r.chance(1, 3) {
        let mut ds: Vec<u64> = cx.dids.keys().copied().collect();
        ds.sort();
        if !ds.is_empty() { let d = ds[r.idx(ds.len())]; let a2 = r.idx(sl.m.archs.len()); forge_unchecked_direct(cx, sl, d, a2, r.next()); }
    }
}

/// A handle that carries archetype A's type but another archetype's id.
fn forge_unchecked(cx: &mut Cx, sl: &mut Slot, h: EntityAny, a: usize, salt: u64) {
    let mut r = Rng::new(salt);
    let id = sl.m.meta.ids[a];
    if h.archetype_id() == id { return; }
    let k = Key { h: EntP::E(h), typed: Some(a as u8), conv: CONV_UNCHECKED };
    unchecked_probe(cx, sl, k, a, &mut r, |sl, e| e.raw() == (h.raw().0 & !0xff | id as u32, h.raw().1) && sl.m.by_raw.contains_key(&e.raw()), "typed key with another archetype's id, but the slot and generation of a live entity");
}

fn forge_unchecked_direct(cx: &mut Cx, sl: &mut Slot, did: u64, a: usize, salt: u64) {
    let mut r = Rng::new(salt);
    let d = cx.dids[&did].h;
    let id = sl.m.meta.ids[a];
    if d.archetype_id() == id { return; }
    let k = Key { h: EntP::D(d), typed: Some(a as u8), conv: CONV_UNCHECKED };
    // Direct handles hash as (index, archetype id, generation); compare all but the id.
    let strip = |d: EntityDirectAny| raw_d(&d).map(|x| (x.0 & !0xff, x.1));
    let want = strip(d);
    unchecked_probe(cx, sl, k, a, &mut r, |sl, e| matches!(guarded(|| sl.w.w_to_direct(Key::any(e))), Ok(Some(x)) if strip(x) == want), "typed direct key with another archetype's id, but the index and generation of a live entity");
}

/// The bits of a direct handle, recovered from what it feeds to a hasher.
pub fn raw_d(d: &EntityDirectAny) -> Option<Raw> {
    use std::hash::{Hash, Hasher};
    struct Rec(Vec<u64>);
    impl Hasher for Rec { fn finish(&self) -> u64 { 0 } fn write(&mut self, b: &[u8]) { for x in b { self.0.push(*x as u64) } } fn write_u64(&mut self, x: u64) { self.0.push(x) } fn write_u32(&mut self, x: u32) { self.0.push(x as u64) } }
    let mut r = Rec(vec![]);
    d.hash(&mut r);
    if r.0.len() == 1 { Some(((r.0[0] >> 32) as u32, r.0[0] as u32)) } else { None }
}

fn unchecked_probe(cx: &mut Cx, sl: &mut Slot, k: Key, a: usize, r: &mut Rng, known: impl Fn(&Slot, EntityAny) -> bool, what: &'static str) {
    let path = r.below(5);
    let mut got: Option<EntityAny> = None;
    let mut found = false;
    let res = {
        let w = &mut sl.w;
        guarded(|| match path {
            0 => found = w.w_contains(k),
            1 => found = w.arch(a).a_contains(k),
            2 => { if let Some(i) = w.arch(a).a_resolve(k) { found = true; got = w.arch(a).a_entity_at(i); } }
            3 => { if let Some((_, e)) = w.arch_mut(a).a_view(k, 0, &mut |_, c| { if !c.dget().ok { integrity("corrupt component behind an unchecked handle"); } }) { found = true; got = Some(e); } }
            _ => { if let Some(_d) = w.w_to_direct(k) { found = true; } }
        })
    };
    cx.st.forged += 1;
    if res.is_err() { cx.st.debug_rejects += 1; return; }
    if !found { return; }
    if got.is_none() { got = guarded(|| sl.w.arch(a).a_resolve(k)).ok().flatten().and_then(|i| sl.w.arch(a).a_entity_at(i)); }
    match got {
        Some(e) if !cx.strict && known(sl, e) => { *cx.known.entry(what).or_insert(0) += 1; }
        x => cx.bad(&sl.m, C03, || format!("a key converted unchecked from another archetype was accepted and reached {:?}", x.map(rw))),
    }
}

// ---------------------------------------------------------------- runtime borrows

struct Bp { mask: u64, n: u64, i: u64, salt: u64 }
type Held = Vec<(usize, usize, bool)>;

fn conflicts(held: &Held, a: usize, c: usize, m: bool) -> bool { held.iter().any(|x| x.0 == a && x.1 == c && (m || x.2)) }
fn conflicts_any(held: &Held, a: usize, binds: &[(usize, bool)]) -> bool { binds.iter().any(|b| conflicts(held, a, b.0, b.1)) }

fn bphase(cx: &mut Cx, m: &mut MWorld, w: &dyn WorldDyn, held: &mut Held, bp: &mut Bp, depth: u32) {
    let mut guards: Vec<(usize, usize, bool, Box<dyn Guard + '_>)> = vec![];
    let entry = held.len();
    while bp.i < bp.n && !cx.failed() {
        let i = bp.i;
        bp.i += 1;
        if bp.mask >> i & 1 == 0 { continue; }
        let mut r = Rng::new(mix2(bp.salt, i));
        let a = r.idx(m.archs.len());
        let n = m.archs[a].live.len();
        let nc = m.meta.archs[a].kinds.len();
        // Prefer columns already held, to provoke conflicts.
        let (a, c) = if !held.is_empty() && r.chance(1, 2) { let h = held[r.idx(held.len())]; (h.0, h.1) } else { (a, r.idx(nc)) };
        let _ = n;
        let mu = r.chance(1, 2);
        let act = r.below(20);
        match act {
            0..=3 => {
                let conf = conflicts(held, a, c, mu);
                match guarded(|| w.arch(a).a_guard_slice(c, mu)) {
                    Ok(g) => { cx.st.alias_granted += 1; cx.dig.add(1); if cx.ck(!conf, m, C11, || format!("borrow_slice{} of column {} of archetype {} was granted against held borrows {:?}", if mu { "_mut" } else { "" }, c, a, held)) { held.push((a, c, mu)); guards.push((a, c, mu, g)); } }
                    Err(Pan::Lib(_)) => { cx.st.alias_refused += 1; cx.st.conflict_panics += 1; cx.any_panic = true; m.panicked = true; cx.dig.add(0); cx.ck(conf, m, C11, || format!("borrow_slice{} of column {} of archetype {} was refused although the held borrows are {:?}", if mu { "_mut" } else { "" }, c, a, held)); }
                    Err(_) => {}
                }
            }
            4..=6 => {
                // Borrow::component(_mut), with more going on while it is held.
                let Some(l) = pick_live(m, a, &mut r) else { continue };
                let h = m.ents[&l].h;
                let conf = conflicts(held, a, c, mu);
                let k = key_for(m, EntP::E(h), r.next());
                let hl = held.len();
                let wr = r.next();
                let mut ran = false;
                let res = guarded(|| w.arch(a).a_guard_comp(k, c, mu, &mut |mut g, e, _| {
                    let _o = OutLib::new();
                    ran = true;
                    held.push((a, c, mu));
                    if e.raw() != h.raw() { cx.bad(m, C01 | C02, || "borrow reached another entity".into()); }
                    same(cx, m, l, c, g.get(0), C02, "Borrow::component");
                    if mu && wr & 1 == 0 { let nv = mix(wr) & m.meta.archs[a].kinds[c].mask; g.set(0, nv); let x = g.get(0); let e = m.ents.get_mut(&l).unwrap(); e.vals[c] = nv; if x.val != nv { integrity("write through RefMut"); } }
                    cx.tick();
                    if depth < 3 { bphase(cx, m, w, held, bp, depth + 1); }
                }));
                held.truncate(hl);
                verdict(cx, m, res.map(|f| f), conf, false, held, || format!("Borrow::component{} of column {} of archetype {}", if mu { "_mut" } else { "" }, c, a), ran, true);
            }
            7 | 8 => { if !guards.is_empty() { let j = r.idx(guards.len()); let (ga, gc, gm, g) = guards.swap_remove(j); drop(g); let p = held.iter().rposition(|x| *x == (ga, gc, gm)).unwrap(); held.remove(p); } }
            9 => {
                if !guards.is_empty() {
                    let j = r.idx(guards.len());
                    let (ga, gc, gm, g) = &mut guards[j];
                    let mut labels = vec![];
                    w.arch(*ga).a_entities(&mut |e| labels.push(m.by_raw.get(&e.raw()).copied()));
                    if !cx.ck(g.len() == labels.len(), m, C06 | C02, || "a held slice changed length".into()) { continue; }
                    for (i, l) in labels.iter().enumerate() {
                        let Some(l) = l else { cx.bad(m, C06, || "entities() lists a dead entity".into()); break };
                        same(cx, m, *l, *gc, g.get(i), C02, "held slice");
                        if *gm && r.chance(1, 3) { let nv = r.next() & m.meta.archs[*ga].kinds[*gc].mask; g.set(i, nv); m.ents.get_mut(l).unwrap().vals[*gc] = nv; }
                    }
                }
            }
            10..=12 => {
                // ecs_find_borrow!
                let q = r.idx(m.meta.queries.len());
                let spec = &m.meta.queries[q];
                let Some(l) = pick_live(m, if r.chance(1, 2) { a } else { r.idx(m.archs.len()) }, &mut r) else { continue };
                let e = &m.ents[&l];
                let (h, ea) = (e.h, e.arch);
                let binds = spec.binds[ea];
                let conf = binds.map_or(false, |b| conflicts_any(held, ea, b));
                let k = if spec.typed { key_for(m, EntP::E(h), r.next()) } else { Key::any(h) };
                let hl = held.len();
                let mut ran = false;
                let mut it = It { q, spec, salt: r.next(), what: "ecs_find_borrow!", props: C01, seen: Set::default(), n: 0, brk: None, broke: false, destroys: false, dens: 0, brk_destroy: false, pend: None,
                    mints: vec![], did0: 0, nd: 99, world: Some(w), write: r.chance(1, 2), lab0: 0, nlab: 0, by_iterd: false };
                let res = guarded(|| w.q_find_borrow(q, k, 0, &mut |v| {
                    ran = true;
                    if v.arch < m.archs.len() { if let Some(b) = spec.binds[v.arch] { for x in b { held.push((v.arch, x.0, x.1)); } } }
                    let x = visit(cx, m, &mut it, v);
                    if depth < 3 { bphase(cx, m, w, held, bp, depth + 1); }
                    x
                }).is_some());
                held.truncate(hl);
                verdict(cx, m, res, conf, false, held, || format!("ecs_find_borrow! (query {}) of an entity of archetype {}", q, ea), ran, binds.is_some());
            }
            13..=15 => {
                // ecs_iter_borrow!
                let q = r.idx(m.meta.queries.len());
                let spec = &m.meta.queries[q];
                let matched: Vec<usize> = (0..m.archs.len()).filter(|x| spec.binds[*x].is_some()).collect();
                let total: u64 = matched.iter().map(|x| m.archs[*x].live.len() as u64).sum();
                let hard = matched.iter().any(|x| !m.archs[*x].live.is_empty() && conflicts_any(held, *x, spec.binds[*x].unwrap()));
                let soft = matched.iter().any(|x| m.archs[*x].live.is_empty() && conflicts_any(held, *x, spec.binds[*x].unwrap()));
                let hl = held.len();
                let brk = if total > 0 && r.chance(1, 4) { Some(r.below(total)) } else { None };
                let nest_at = r.below(total + 1);
                let mut it = It { q, spec, salt: r.next(), what: "ecs_iter_borrow!", props: C06, seen: Set::default(), n: 0, brk, broke: false, destroys: false, dens: 0, brk_destroy: false, pend: None,
                    mints: vec![], did0: 0, nd: 99, world: Some(w), write: r.chance(1, 2), lab0: 0, nlab: 0, by_iterd: false };
                let res = guarded(|| w.q_iter_borrow(q, &mut |v| {
                    if v.arch < m.archs.len() { if let Some(b) = spec.binds[v.arch] {
                        let c = conflicts_any(held, v.arch, b);
                        cx.ck(!c, m, C11, || format!("ecs_iter_borrow! (query {}) ran in archetype {} against held borrows {:?}", q, v.arch, held));
                        for x in b { held.push((v.arch, x.0, x.1)); }
                    } }
                    let k = it.n;
                    let x = visit(cx, m, &mut it, v);
                    if depth < 3 && k == nest_at { bphase(cx, m, w, held, bp, depth + 1); }
                    held.truncate(hl);
                    x
                }));
                held.truncate(hl);
                let n = it.n;
                match res {
                    Ok(()) => {
                        cx.dig.add(n);
                        let want = match brk { Some(b) if it.broke => b + 1, _ => total };
                        cx.ck(!hard || it.broke, m, C11, || format!("ecs_iter_borrow! (query {}) finished against held borrows {:?}", q, held));
                        cx.ck(n == want, m, C06 | C11, || format!("ecs_iter_borrow! made {} visits, expected {}", n, want));
                    }
                    Err(Pan::Inj(_)) => { cx.any_panic = true; m.panicked = true; }
                    Err(Pan::Lib(s)) => { cx.st.alias_refused += 1; cx.st.conflict_panics += 1; cx.any_panic = true; m.panicked = true; cx.ck(hard || soft, m, C11, || format!("ecs_iter_borrow! (query {}) was refused ({}) although the held borrows are {:?}", q, s, held)); }
                }
            }
            16 => {
                // Also without entities: the column is what is borrowed.
                let hard = held.iter().any(|x| x.2);
                let soft = hard;
                let res = guarded(|| { let c = w.clone_world(0); let n: usize = (0..m.archs.len()).map(|a| c.arch(a).a_len()).sum(); n });
                match res {
                    Ok(n) => { cx.dig.add(1); cx.ck(!hard, m, C11, || format!("clone succeeded while mutable borrows are held: {:?}", held)); cx.ck(n == m.len(), m, C13, || "a clone has a different number of entities".into()); }
                    Err(Pan::Lib(s)) => { cx.dig.add(0); cx.st.conflict_panics += 1; cx.any_panic = true; m.panicked = true; cx.ck(soft, m, C11, || format!("clone was refused ({}) although the held borrows are {:?}", s, held)); }
                    Err(_) => { cx.any_panic = true; m.panicked = true; }
                }
            }
            17 => {
                // A guard that ends by unwinding.
                if cx.no_fault { continue; }
                let _: Result<(), Pan> = guarded(|| { let g = w.arch(a).a_guard_slice(c, mu); let _o = OutLib::new(); let _n = g.len(); injected(FK_UNWIND) });
                cx.any_panic = true;
                m.panicked = true;
            }
            18 => {
                // Lookups and lengths never borrow components.
                let ok = guarded(|| { let ar = w.arch(a); let mut e = None; ar.a_entities(&mut |x| e = Some(x)); match e { Some(e) => ar.a_len() > 0 && ar.a_contains(Key::any(e)) && w.w_contains(Key::any(e)) && w.w_to_direct(Key::any(e)).is_some() && ar.a_resolve(Key::any(e)).is_some(), None => ar.a_is_empty() } });
                cx.ck(matches!(ok, Ok(true)), m, C11, || format!("a lookup was refused while {:?} are held", held));
            }
            _ => {
                if depth > 0 {
                    if r.chance(1, 2) { break; }
                    if !cx.no_fault { held.truncate(entry); injected(FK_UNWIND); }
                }
            }
        }
    }
    drop(guards);
    held.truncate(entry);
}

fn pick_live(m: &MWorld, a: usize, r: &mut Rng) -> Option<u64> {
    let v = &m.archs[a].live;
    if v.is_empty() { None } else { Some(v[r.idx(v.len())]) }
}

fn verdict(cx: &mut Cx, m: &mut MWorld, res: Result<bool, Pan>, conf: bool, lenient: bool, held: &Held, what: impl Fn() -> String, ran: bool, expect_run: bool) {
    match res {
        Ok(f) => {
            cx.dig.add(f as u64);
            cx.st.alias_granted += 1;
            cx.ck(!conf, m, C11, || format!("{} was granted against held borrows {:?}", what(), held));
            cx.ck(f == ran && f == expect_run, m, C01 | C11, || format!("{}: found={} ran={} expected={}", what(), f, ran, expect_run));
        }
        Err(Pan::Inj(_)) => { cx.any_panic = true; m.panicked = true; cx.ck(ran && !conf, m, C11, || format!("{} was granted against held borrows {:?}", what(), held)); }
        Err(Pan::Lib(s)) => {
            cx.st.alias_refused += 1;
            cx.st.conflict_panics += 1;
            cx.any_panic = true;
            m.panicked = true;
            cx.dig.add(0);
            cx.ck(conf && !ran, m, C11, || format!("{} was refused ({}) although the held borrows are {:?}", what(), s, held));
        }
    }
}
