//! Object-safe view of a gecs world, so one executor and one model serve all generated worlds.
use std::cell::{Ref, RefMut};
use gecs::prelude::*;
use gecs::traits::*;
use crate::comp::*;

#[derive(Clone, Copy)]
pub enum EntP { E(EntityAny), D(EntityDirectAny) }

/// A key as delivered to the library: the handle, and how it is (statically) typed.
#[derive(Clone, Copy)]
pub struct Key { pub h: EntP, pub typed: Option<u8>, pub conv: u8 }
impl Key {
    pub fn any(h: EntityAny) -> Self { Key { h: EntP::E(h), typed: None, conv: 0 } }
    pub fn dany(h: EntityDirectAny) -> Self { Key { h: EntP::D(h), typed: None, conv: 0 } }
}
pub const CONV_UNCHECKED: u8 = 3;

#[inline]
pub fn ke<A: Archetype>(h: EntityAny, conv: u8) -> Entity<A> {
    match conv {
        0 => Entity::<A>::from_any(h),
        1 => Entity::<A>::try_from(h).unwrap(),
        _ => Entity::<A>::from_any_unchecked(h),
    }
}
#[inline]
pub fn kd<A: Archetype>(h: EntityDirectAny, conv: u8) -> EntityDirect<A> {
    match conv {
        0 => EntityDirect::<A>::from_any(h),
        1 => EntityDirect::<A>::try_from(h).unwrap(),
        _ => EntityDirect::<A>::from_any_unchecked(h),
    }
}

#[macro_export]
macro_rules! with_key {
    ($s:ident, $key:expr, [$($i:literal $A:ty),*], |$k:ident| $body:expr) => {
        match ($key.typed, $key.h) {
            (None, EntP::E($k)) => $body,
            (None, EntP::D($k)) => $body,
            $((Some($i), EntP::E(h)) => { let $k = ke::<$A>(h, $key.conv); $body })*
            $((Some($i), EntP::D(h)) => { let $k = kd::<$A>(h, $key.conv); $body })*
            _ => unreachable!(),
        }
    };
}
pub use crate::with_key;

pub enum CompP<'v> { R(&'v dyn CompDyn), M(&'v mut dyn CompDyn) }
pub struct Visit<'v, 'c> {
    pub arch: usize,
    pub ents: &'v [EntP],
    pub comps: &'v mut [CompP<'c>],
    pub other: Option<(usize, &'v mut dyn ArchDyn)>,
}
pub type Cb<'a> = &'a mut dyn FnMut(&mut Visit) -> u8;

pub struct ArchMeta { pub name: &'static str, pub kinds: &'static [Kind] }
pub struct QuerySpec {
    /// Per archetype: None if not matched, else (column, mutable) per component parameter.
    pub binds: &'static [Option<&'static [(usize, bool)]>],
    pub ents: &'static str,
    pub typed: bool,
    pub refs: bool,
}
pub struct WorldMeta {
    pub name: &'static str,
    pub ids: &'static [u8],
    pub archs: &'static [ArchMeta],
    pub queries: &'static [QuerySpec],
    /// (query, archetype it does not match and which its closure accesses mutably)
    pub sneaky: &'static [(usize, usize)],
}
unsafe impl Sync for WorldMeta {}

pub trait SliceDyn { fn len(&self) -> usize; fn get(&self, i: usize) -> CVal; fn with_mut(&mut self, i: usize, f: &mut dyn FnMut(&mut dyn CompDyn)) -> bool; }
struct SR<'a, C>(&'a [C]);
struct SM<'a, C>(&'a mut [C]);
impl<C: Comp> SliceDyn for SR<'_, C> {
    fn len(&self) -> usize { self.0.len() }
    fn get(&self, i: usize) -> CVal { Comp::get(&self.0[i]) }
    fn with_mut(&mut self, _: usize, _: &mut dyn FnMut(&mut dyn CompDyn)) -> bool { false }
}
impl<C: Comp> SliceDyn for SM<'_, C> {
    fn len(&self) -> usize { self.0.len() }
    fn get(&self, i: usize) -> CVal { Comp::get(&self.0[i]) }
    fn with_mut(&mut self, i: usize, f: &mut dyn FnMut(&mut dyn CompDyn)) -> bool { f(&mut self.0[i]); true }
}
pub fn slice_form<A: ArchetypeHas<C>, C: Comp>(a: &mut A, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) {
    match form & 3 {
        0 => { let mut s = SR(a.get_slice::<C>()); let _g = OutLib::new(); cb(&mut s) }
        1 => { let mut s = SM(a.get_slice_mut::<C>()); let _g = OutLib::new(); cb(&mut s) }
        2 => { let r = a.borrow_slice::<C>(); let _g = OutLib::new(); cb(&mut SR(&r)) }
        _ => { let mut r = a.borrow_slice_mut::<C>(); let _g = OutLib::new(); cb(&mut SM(&mut r)) }
    }
}

/// A held Ref/RefMut.
pub trait Guard { fn len(&self) -> usize; fn get(&self, i: usize) -> CVal; fn set(&mut self, i: usize, v: u64) -> bool; }
pub struct GR<'a, C>(pub Ref<'a, C>);
pub struct GM<'a, C>(pub RefMut<'a, C>);
struct GSR<'a, C>(Ref<'a, [C]>);
struct GSM<'a, C>(RefMut<'a, [C]>);
impl<C: Comp> Guard for GR<'_, C> { fn len(&self) -> usize { 1 } fn get(&self, _: usize) -> CVal { Comp::get(&*self.0) } fn set(&mut self, _: usize, _: u64) -> bool { false } }
impl<C: Comp> Guard for GM<'_, C> { fn len(&self) -> usize { 1 } fn get(&self, _: usize) -> CVal { Comp::get(&*self.0) } fn set(&mut self, _: usize, v: u64) -> bool { Comp::set(&mut *self.0, v); true } }
impl<C: Comp> Guard for GSR<'_, C> { fn len(&self) -> usize { self.0.len() } fn get(&self, i: usize) -> CVal { Comp::get(&self.0[i]) } fn set(&mut self, _: usize, _: u64) -> bool { false } }
impl<C: Comp> Guard for GSM<'_, C> { fn len(&self) -> usize { self.0.len() } fn get(&self, i: usize) -> CVal { Comp::get(&self.0[i]) } fn set(&mut self, i: usize, v: u64) -> bool { Comp::set(&mut self.0[i], v); true } }
pub fn mk_guard_slice<A: ArchetypeHas<C>, C: Comp>(a: &A, mutable: bool) -> Box<dyn Guard + '_> {
    if mutable { Box::new(GSM(a.borrow_slice_mut::<C>())) } else { Box::new(GSR(a.borrow_slice::<C>())) }
}

/// Converts into an archetype's components by panicking (a user conversion that fails).
pub struct PanicInto<A>(pub Vec<u64>, pub std::marker::PhantomData<A>);

/// Walks an iterator in one of several ways, handing over the items the way yields, in order. Run on
/// a plain list as well, it tells what the library's iterator has to yield.
pub fn once(n: u32) { if n != 1 { crate::comp::integrity("ecs_find! evaluated its entity expression more or less than once"); } }
pub const N_DRIVES: u64 = 14;
pub fn drive<T>(mut it: impl Iterator<Item = T>, form: u8, n: usize, f: &mut dyn FnMut(T)) -> usize {
    match form {
        0 => { if let Some(x) = it.nth(n) { f(x) } for x in it { f(x) } 0 }
        1 => { for x in it.skip(n) { f(x) } 0 }
        2 => { for x in it.step_by(n % 5 + 1) { f(x) } 0 }
        3 => { if let Some(x) = it.last() { f(x) } 0 }
        4 => { it.for_each(|x| f(x)); 0 }
        5 => { for x in it.by_ref().take(n) { f(x) } it.count() }
        6 => { let v: Vec<T> = it.collect(); let k = v.len(); for x in v { f(x) } k }
        7 => { let mut i = n; while let Some(x) = it.nth(i % 4) { f(x); i += 1; } 0 }
        8 => { let mut p = it.peekable(); let mut k = 0; while p.peek().is_some() { k += 1; if let Some(x) = p.next() { f(x) } } k }
        9 => {
            let mut hints = vec![];
            loop { hints.push(it.size_hint()); match it.next() { Some(x) => f(x), None => break } }
            let total = hints.len() - 1;
            hints.iter().enumerate().filter(|(i, h)| h.0 > total - i || h.1.is_some_and(|u| u < total - i)).count()
        }
        10 => it.fold(0, |k, x| { f(x); k + 1 }),
        11 => { while let Some(x) = it.next() { f(x) } let mut k = 0; for _ in 0..3 { if let Some(x) = it.next() { f(x); k += 1; } } k }
        12 => { for x in it.by_ref().take(n) { f(x) } if let Some(x) = it.nth(n / 2) { f(x) } let mut k = 0; while let Some(x) = it.find(|_| { k += 1; k % 2 == 0 }) { f(x) } k }
        _ => { let mut k = 0; let b = it.try_for_each(|x| { f(x); k += 1; if k > n { Err(()) } else { Ok(()) } }); k + it.count() + b.is_err() as usize }
    }
}

/// Generated per archetype.
pub trait ArchComps: Archetype + Sized {
    const IDX: usize;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> Self::Components;
    fn unmake(c: Self::Components, form: u8, out: &mut Vec<CVal>);
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<Self>;
    fn view_do(v: &mut Self::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn));
    fn view_entity(v: &Self::View<'_>) -> EntityAny;
    fn all_slices_do(s: &mut Self::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny;
    fn all_slices_len(s: &Self::Slices<'_>) -> usize;
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn]));
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn]));
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize;
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize;
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn));
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_>;
    fn guard_comp<'b>(b: &'b Self::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b>;
    #[cfg(gecs_verif)]
    fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32);
}

pub trait ArchDyn {
    fn a_len(&self) -> usize;
    fn a_is_empty(&self) -> bool;
    fn a_capacity(&self) -> usize;
    fn a_entities(&self, cb: &mut dyn FnMut(EntityAny));
    fn a_entity_at(&self, i: usize) -> Option<EntityAny>;
    fn a_contains(&self, k: Key) -> bool;
    fn a_resolve(&self, k: Key) -> Option<usize>;
    fn a_to_direct(&self, k: Key) -> Option<EntityDirectAny>;
    fn a_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>;
    fn a_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>;
    fn a_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool;
    fn a_create(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny;
    fn a_create_wc(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny>;
    fn a_iter(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn]));
    fn a_iter_mut(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn]));
    fn a_iter_form(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize;
    fn a_iter_mut_form(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize;
    fn a_iter_count(&mut self, mutable: bool) -> usize;
    fn a_all_slices(&mut self, cb: &mut dyn FnMut(EntityAny, usize, &mut dyn CompDyn)) -> usize;
    fn a_slice(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn));
    fn a_guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_>;
    /// Calls back with a component guard that outlives nothing but the callback.
    fn a_guard_comp(&self, k: Key, col: usize, mutable: bool, cb: &mut dyn FnMut(Box<dyn Guard + '_>, EntityAny, usize)) -> bool;
    fn a_slice_addr(&mut self, col: usize) -> usize;
    #[cfg(gecs_verif)]
    fn a_preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32);
    #[cfg(feature = "events")]
    fn a_events(&self, destroyed: bool, cb: &mut dyn FnMut(EntityAny));
    #[cfg(feature = "events")]
    fn a_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize;
    #[cfg(feature = "events")]
    fn a_clear_events(&mut self);
}

macro_rules! akey {
    ($A:ty, $key:expr, |$k:ident| $body:expr) => {
        match ($key.typed, $key.h) {
            (None, EntP::E($k)) => $body,
            (None, EntP::D($k)) => $body,
            (Some(_), EntP::E(h)) => { let $k = ke::<$A>(h, $key.conv); $body }
            (Some(_), EntP::D(h)) => { let $k = kd::<$A>(h, $key.conv); $body }
        }
    };
}

/// Component access through a Ref/RefMut pair, presented as a `&mut dyn CompDyn`.
fn borrow_cols<A: ArchComps>(b: &A::Borrow<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn), n: usize) {
    for col in 0..n {
        let mutable = form & 1 == 1;
        let mut g = A::guard_comp(b, col, mutable);
        let _g = OutLib::new();
        cb(col, &mut GuardComp(&mut *g, mutable));
    }
}
struct GuardComp<'a>(&'a mut dyn Guard, bool);
impl CompDyn for GuardComp<'_> {
    fn dget(&self) -> CVal { self.0.get(0) }
    fn dset(&mut self, v: u64) { self.0.set(0, v); }
    fn replace(&mut self, v: u64) -> u64 { self.0.set(0, v); self.0.get(0).iid }
    fn kind(&self) -> Kind { Kind { name: if self.1 { "guard" } else { "readonly" }, mask: 0, tracked: false, zst: false } }
}

impl<A> ArchDyn for A
where
    A: ArchComps + ArchetypeCanResolve<Entity<A>> + ArchetypeCanResolve<EntityAny>
        + ArchetypeCanResolve<EntityDirect<A>> + ArchetypeCanResolve<EntityDirectAny> + NCols,
    PanicInto<A>: Into<A::Components>,
    for<'a> A::View<'a>: View<'a>,
    for<'a> A::Borrow<'a>: Borrow<'a, Archetype = A>,
{
    fn a_len(&self) -> usize { self.len() }
    fn a_is_empty(&self) -> bool { self.is_empty() }
    fn a_capacity(&self) -> usize { self.capacity() }
    fn a_entities(&self, cb: &mut dyn FnMut(EntityAny)) { for e in self.entities() { let _g = OutLib::new(); cb((*e).into_any()) } }
    fn a_entity_at(&self, i: usize) -> Option<EntityAny> { self.entities().get(i).map(|e| (*e).into_any()) }
    fn a_contains(&self, k: Key) -> bool { akey!(A, k, |k| self.contains(k)) }
    fn a_resolve(&self, k: Key) -> Option<usize> { akey!(A, k, |k| self.resolve(k)) }
    fn a_to_direct(&self, k: Key) -> Option<EntityDirectAny> { akey!(A, k, |k| self.to_direct(k).map(|d| d.into_any())) }
    fn a_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> {
        akey!(A, k, |k| self.view(k).map(|mut v| { let r = (v.index(), A::view_entity(&v)); let _g = OutLib::new(); A::view_do(&mut v, form, cb); r }))
    }
    fn a_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> {
        akey!(A, k, |k| self.borrow(k).map(|b| { let r = (b.index(), (*b.entity()).into_any()); borrow_cols::<A>(&b, form, cb, A::NCOLS); r }))
    }
    fn a_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool {
        match akey!(A, k, |k| self.destroy(k)) { Some(c) => { let _g = OutLib::new(); A::unmake(c, form, out); true } None => false }
    }
    fn a_create(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny {
        if form == 255 { return self.create(PanicInto::<A>(v.to_vec(), std::marker::PhantomData)).into_any(); }
        self.create_form(v, ids, form).into_any()
    }
    fn a_create_wc(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> {
        if form == 255 { return self.create_within_capacity(PanicInto::<A>(v.to_vec(), std::marker::PhantomData)).ok().map(|e| e.into_any()); }
        let c = { let _g = OutLib::new(); A::make(v, ids) };
        match self.create_within_capacity(c) { Ok(e) => Some(e.into_any()), Err(c) => { let _g = OutLib::new(); A::unmake(c, form, out); None } }
    }
    fn a_iter(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { self.iter_do(cb) }
    fn a_iter_mut(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { self.iter_mut_do(cb) }
    fn a_iter_form(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { self.iter_form_do(form, n, cb) }
    fn a_iter_mut_form(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { self.iter_mut_form_do(form, n, cb) }
    fn a_iter_count(&mut self, mutable: bool) -> usize { if mutable { self.iter_mut().count() } else { self.iter().count() } }
    fn a_all_slices(&mut self, cb: &mut dyn FnMut(EntityAny, usize, &mut dyn CompDyn)) -> usize {
        let mut s = self.get_all_slices_mut();
        let n = A::all_slices_len(&s);
        let _g = OutLib::new();
        for i in 0..n {
            // The handle is the first thing the callback wants to know, so ask for it separately.
            let e = A::all_slices_do(&mut s, i, &mut |_, _| {});
            A::all_slices_do(&mut s, i, &mut |c, x| cb(e, c, x));
        }
        n
    }
    fn a_slice(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { self.slice_do(col, form, cb) }
    fn a_guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { self.guard_slice(col, mutable) }
    fn a_guard_comp(&self, k: Key, col: usize, mutable: bool, cb: &mut dyn FnMut(Box<dyn Guard + '_>, EntityAny, usize)) -> bool {
        akey!(A, k, |k| match self.borrow(k) { Some(b) => { let b2 = b; cb(A::guard_comp(&b2, col, mutable), (*b2.entity()).into_any(), b2.index()); true } None => false })
    }
    fn a_slice_addr(&mut self, col: usize) -> usize {
        let mut r = 0;
        if self.len() > 0 { let mut s = self.get_all_slices_mut(); A::all_slices_do(&mut s, 0, &mut |c, x| if c == col { r = x as *mut dyn CompDyn as *mut u8 as usize }); }
        r
    }
    #[cfg(gecs_verif)]
    fn a_preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.preset(slot, arch) }
    #[cfg(feature = "events")]
    fn a_events(&self, destroyed: bool, cb: &mut dyn FnMut(EntityAny)) {
        if destroyed { for e in self.iter_destroyed() { cb((*e).into_any()) } } else { for e in self.iter_created() { cb((*e).into_any()) } }
    }
    #[cfg(feature = "events")]
    fn a_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb((*e).into_any())) } else { drive(self.iter_created(), form, n, &mut |e| cb((*e).into_any())) }
    }
    #[cfg(feature = "events")]
    fn a_clear_events(&mut self) { self.clear_events() }
}

/// Number of columns, from the tuple length computed by the generator.
pub trait NCols { const NCOLS: usize; }

pub trait WorldDyn {
    fn meta(&self) -> &'static WorldMeta;
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn>;
    fn as_any(&self) -> &dyn std::any::Any;
    /// clone_from into a world that has been in use.
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8);
    fn arch(&self, a: usize) -> &dyn ArchDyn;
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn;
    fn w_contains(&self, k: Key) -> bool;
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny>;
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool;
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>;
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>;
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny;
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny>;
    #[cfg(feature = "events")]
    fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>)));
    #[cfg(feature = "events")]
    fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize;
    #[cfg(feature = "events")]
    fn w_clear_events(&mut self);
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64>;
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64>;
    fn q_iter(&mut self, q: usize, cb: Cb<'_>);
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>);
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>);
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>);
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>);
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>);
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>);
    fn q_sneaky(&mut self, s: usize, kind: u8, k: Key, cb: Cb<'_>);
}

pub fn w_destroy_typed<W, A>(w: &mut W, k: Key, form: u8, out: &mut Vec<CVal>) -> bool
where W: World + WorldHas<A> + WorldCanResolve<Entity<A>> + WorldCanResolve<EntityDirect<A>>, A: ArchComps {
    let r = match k.h { EntP::E(h) => w.destroy(ke::<A>(h, k.conv)), EntP::D(h) => w.destroy(kd::<A>(h, k.conv)) };
    match r { Some(c) => { let _g = OutLib::new(); A::unmake(c, form, out); true } None => false }
}
pub fn w_view_typed<W, A>(w: &mut W, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>
where W: World + WorldHas<A>, A: ArchComps + ArchetypeCanResolve<Entity<A>> + ArchetypeCanResolve<EntityDirect<A>>, for<'a> A::View<'a>: View<'a> {
    let f = |mut v: A::View<'_>| { let r = (v.index(), A::view_entity(&v)); let _g = OutLib::new(); A::view_do(&mut v, form, cb); r };
    match k.h { EntP::E(h) => w.view::<A, _>(ke::<A>(h, k.conv)).map(f), EntP::D(h) => w.view::<A, _>(kd::<A>(h, k.conv)).map(f) }
}
pub fn w_borrow_typed<W, A>(w: &W, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)>
where W: World + WorldHas<A>, A: ArchComps + NCols + ArchetypeCanResolve<Entity<A>> + ArchetypeCanResolve<EntityDirect<A>>, for<'a> A::Borrow<'a>: Borrow<'a, Archetype = A> {
    let f = |b: A::Borrow<'_>| { let r = (b.index(), (*b.entity()).into_any()); borrow_cols::<A>(&b, form, cb, A::NCOLS); r };
    match k.h { EntP::E(h) => w.borrow::<A, _>(ke::<A>(h, k.conv)).map(f), EntP::D(h) => w.borrow::<A, _>(kd::<A>(h, k.conv)).map(f) }
}
pub fn w_create_typed<W, A>(w: &mut W, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny
where W: World + WorldHas<A>, A: ArchComps, PanicInto<A>: Into<A::Components> {
    if form == 255 { return w.create::<A>(PanicInto::<A>(v.to_vec(), std::marker::PhantomData)).into_any(); }
    match form & 2 {
        0 => { let c = { let _g = OutLib::new(); A::make(v, ids) }; w.create::<A>(c).into_any() }
        _ => w.archetype_mut::<A>().create_form(v, ids, form).into_any(),
    }
}
pub fn w_create_wc_typed<W, A>(w: &mut W, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny>
where W: World + WorldHas<A>, A: ArchComps, PanicInto<A>: Into<A::Components> {
    if form == 255 { return w.create_within_capacity::<A>(PanicInto::<A>(v.to_vec(), std::marker::PhantomData)).ok().map(|e| e.into_any()); }
    let c = { let _g = OutLib::new(); A::make(v, ids) };
    match w.create_within_capacity::<A>(c) { Ok(e) => Some(e.into_any()), Err(c) => { let _g = OutLib::new(); A::unmake(c, form, out); None } }
}
