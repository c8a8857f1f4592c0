// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    ecs_name!(WorldSolo);
    #[archetype_id(255)]
    ecs_archetype!(ArchSolo, CBox, CTri);
}

pub const IDS: &[u8] = &[255];
#[inline] fn aix(id: u8) -> usize { match id { 255 => 0, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "solo", ids: IDS, archs: &[
    ArchMeta { name: "ArchSolo", kinds: &[<CBox as Comp>::KIND, <CTri as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(1, true)])], ents: "E", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[(0, false)])], ents: "DE", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[(0, true), (1, true)])], ents: "ED", typed: true, refs: false },
    QuerySpec { binds: &[Some(&[(0, true)])], ents: "E", typed: false, refs: false },
], sneaky: &[] };

impl ArchComps for ArchSolo {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchSoloComponents {
        let c = (<CBox as Comp>::make(v[0]), <CTri as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchSoloComponents { c_box: c.0, c_tri: c.1 }
    }
    fn unmake(mut c: ArchSoloComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_box.get()); out.push(c.c_tri.get()); }
            1 => { out.push(c.get::<CBox>().get()); out.push(c.get::<CTri>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CBox>().get(); let _ = c.get_mut::<CTri>().get(); let t: (CBox, CTri,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchSolo> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CBox, CTri,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchSolo as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_box); cb(1, v.c_tri); }
        else { { let s = v.component::<CBox>().get(); let m = v.component_mut::<CBox>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CTri>().get(); let m = v.component_mut::<CTri>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchSolo as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchSolo as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_box[i]); cb(1, &mut s.c_tri[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchSolo as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_box.len() != n || s.c_tri.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CBox>(self, form, cb), 1 => slice_form::<Self, CTri>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CBox>(self, mutable), 1 => mk_guard_slice::<Self, CTri>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchSolo as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CBox>())) } else { Box::new(GR(b.component::<CBox>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CTri>())) } else { Box::new(GR(b.component::<CTri>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchSolo { const NCOLS: usize = 2; }
impl From<PanicInto<ArchSolo>> for ArchSoloComponents { fn from(p: PanicInto<ArchSolo>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchSolo as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for WorldSolo {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = WorldSolo::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(WorldSolo { arch_solo: self.arch_solo.clone() }),
        4 => { let mut x = WorldSolo::default(); x.arch_solo.clone_from(&self.arch_solo); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = WorldSolo::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_solo, &mut y.arch_solo); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<WorldSolo>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_solo.clone_from(&of.arch_solo); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_solo, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_solo, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchSolo], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchSolo], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchSolo>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchSolo>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchSolo>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchSolo>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchSolo>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find!(world, h, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchSolo>(h, k.conv); ecs_find_borrow!(world, h, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &mut CBox, p1: &mut CTri, p2: &Entity<ArchSolo>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |p0: &mut OneOf<CBox, CStr>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CTri| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny, p2: &CBox| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::R(p2)], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(WorldSolo::with_capacity(WorldSoloCapacity { arch_solo: c[0] })),
    1 => Box::new(WorldSolo::new()),
    2 => Box::new(WorldSolo::default()),
    _ => Box::new(WorldSolo { arch_solo: ArchSolo::with_capacity(c[0]) }),
} }
