// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    ecs_name!(WorldMany);
    ecs_archetype!(ArchNa, CInl);
    #[archetype_id(30)]
    ecs_archetype!(ArchNb, CByte, CInl);
    ecs_archetype!(ArchNc, CWord);
    #[archetype_id(17)]
    ecs_archetype!(ArchNd, CStr, CWord);
    #[archetype_id(5)]
    ecs_archetype!(ArchNe, CByte);
    ecs_archetype!(ArchNf, CInl, CWord, CByte);
    #[archetype_id(90)]
    ecs_archetype!(ArchNg, CStr);
    #[archetype_id(254)]
    ecs_archetype!(ArchNh, CInl, CStr);
    ecs_archetype!(ArchNi, CWord, CByte);
    #[archetype_id(20)]
    ecs_archetype!(ArchNj, CZst);
    #[archetype_id(200)]
    ecs_archetype!(ArchNk, CStr, CByte);
    ecs_archetype!(ArchNl, CInl, CZst);
}

pub const IDS: &[u8] = &[0, 30, 31, 17, 5, 6, 90, 254, 255, 20, 200, 201];
#[inline] fn aix(id: u8) -> usize { match id { 0 => 0, 30 => 1, 31 => 2, 17 => 3, 5 => 4, 6 => 5, 90 => 6, 254 => 7, 255 => 8, 20 => 9, 200 => 10, 201 => 11, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "many", ids: IDS, archs: &[
    ArchMeta { name: "ArchNa", kinds: &[<CInl as Comp>::KIND] },
    ArchMeta { name: "ArchNb", kinds: &[<CByte as Comp>::KIND, <CInl as Comp>::KIND] },
    ArchMeta { name: "ArchNc", kinds: &[<CWord as Comp>::KIND] },
    ArchMeta { name: "ArchNd", kinds: &[<CStr as Comp>::KIND, <CWord as Comp>::KIND] },
    ArchMeta { name: "ArchNe", kinds: &[<CByte as Comp>::KIND] },
    ArchMeta { name: "ArchNf", kinds: &[<CInl as Comp>::KIND, <CWord as Comp>::KIND, <CByte as Comp>::KIND] },
    ArchMeta { name: "ArchNg", kinds: &[<CStr as Comp>::KIND] },
    ArchMeta { name: "ArchNh", kinds: &[<CInl as Comp>::KIND, <CStr as Comp>::KIND] },
    ArchMeta { name: "ArchNi", kinds: &[<CWord as Comp>::KIND, <CByte as Comp>::KIND] },
    ArchMeta { name: "ArchNj", kinds: &[<CZst as Comp>::KIND] },
    ArchMeta { name: "ArchNk", kinds: &[<CStr as Comp>::KIND, <CByte as Comp>::KIND] },
    ArchMeta { name: "ArchNl", kinds: &[<CInl as Comp>::KIND, <CZst as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(0, true)]), Some(&[(1, true)]), None, None, None, Some(&[(0, true)]), None, Some(&[(0, true)]), None, None, None, Some(&[(0, true)])], ents: "E", typed: true, refs: false },
    QuerySpec { binds: &[Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[])], ents: "DE", typed: false, refs: true },
    QuerySpec { binds: &[None, None, Some(&[(0, true)]), Some(&[(1, true)]), None, Some(&[(1, true)]), None, None, Some(&[(0, true)]), Some(&[(0, true)]), None, Some(&[(1, true)])], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, Some(&[(0, false)]), None, None, Some(&[(0, false)]), Some(&[(2, false)]), None, None, Some(&[(1, false)]), None, Some(&[(1, false)]), None], ents: "ED", typed: false, refs: false },
    QuerySpec { binds: &[None, None, Some(&[(0, true)]), Some(&[(1, true)]), None, Some(&[(1, true)]), None, None, Some(&[(0, true)]), None, None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, None, None, None, None, None, Some(&[(1, true)]), None, None, None, None], ents: "ED", typed: false, refs: false },
], sneaky: &[(5, 8)] };

impl ArchComps for ArchNa {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNaComponents {
        let c = (<CInl as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchNaComponents { c_inl: c.0 }
    }
    fn unmake(mut c: ArchNaComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); }
            1 => { out.push(c.get::<CInl>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let t: (CInl,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNa> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNa as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchNa as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNa as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNa as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNa as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNa { const NCOLS: usize = 1; }
impl From<PanicInto<ArchNa>> for ArchNaComponents { fn from(p: PanicInto<ArchNa>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNa as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNb {
    const IDX: usize = 1;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNbComponents {
        let c = (<CByte as Comp>::make(v[0]), <CInl as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNbComponents { c_byte: c.0, c_inl: c.1 }
    }
    fn unmake(mut c: ArchNbComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_byte.get()); out.push(c.c_inl.get()); }
            1 => { out.push(c.get::<CByte>().get()); out.push(c.get::<CInl>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CByte>().get(); let _ = c.get_mut::<CInl>().get(); let t: (CByte, CInl,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNb> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CByte, CInl,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNb as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_byte); cb(1, v.c_inl); }
        else { { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNb as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNb as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_byte[i]); cb(1, &mut s.c_inl[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNb as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_byte.len() != n || s.c_inl.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CByte>(self, form, cb), 1 => slice_form::<Self, CInl>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CByte>(self, mutable), 1 => mk_guard_slice::<Self, CInl>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNb as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNb { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNb>> for ArchNbComponents { fn from(p: PanicInto<ArchNb>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNb as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNc {
    const IDX: usize = 2;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNcComponents {
        let c = (<CWord as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchNcComponents { c_word: c.0 }
    }
    fn unmake(mut c: ArchNcComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_word.get()); }
            1 => { out.push(c.get::<CWord>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CWord>().get(); let t: (CWord,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNc> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CWord,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNc as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_word); }
        else { { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchNc as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNc as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_word[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNc as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_word.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CWord>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CWord>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNc as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNc { const NCOLS: usize = 1; }
impl From<PanicInto<ArchNc>> for ArchNcComponents { fn from(p: PanicInto<ArchNc>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNc as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNd {
    const IDX: usize = 3;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNdComponents {
        let c = (<CStr as Comp>::make(v[0]), <CWord as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNdComponents { c_str: c.0, c_word: c.1 }
    }
    fn unmake(mut c: ArchNdComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_str.get()); out.push(c.c_word.get()); }
            1 => { out.push(c.get::<CStr>().get()); out.push(c.get::<CWord>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CStr>().get(); let _ = c.get_mut::<CWord>().get(); let t: (CStr, CWord,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNd> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CStr, CWord,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNd as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_str); cb(1, v.c_word); }
        else { { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNd as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNd as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_str[i]); cb(1, &mut s.c_word[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNd as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_str.len() != n || s.c_word.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CStr>(self, form, cb), 1 => slice_form::<Self, CWord>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CStr>(self, mutable), 1 => mk_guard_slice::<Self, CWord>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNd as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNd { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNd>> for ArchNdComponents { fn from(p: PanicInto<ArchNd>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNd as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNe {
    const IDX: usize = 4;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNeComponents {
        let c = (<CByte as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchNeComponents { c_byte: c.0 }
    }
    fn unmake(mut c: ArchNeComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_byte.get()); }
            1 => { out.push(c.get::<CByte>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CByte>().get(); let t: (CByte,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNe> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CByte,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNe as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_byte); }
        else { { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchNe as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNe as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_byte[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNe as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_byte.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CByte>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CByte>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNe as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNe { const NCOLS: usize = 1; }
impl From<PanicInto<ArchNe>> for ArchNeComponents { fn from(p: PanicInto<ArchNe>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNe as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNf {
    const IDX: usize = 5;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNfComponents {
        let c = (<CInl as Comp>::make(v[0]), <CWord as Comp>::make(v[1]), <CByte as Comp>::make(v[2]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid);
        ArchNfComponents { c_inl: c.0, c_word: c.1, c_byte: c.2 }
    }
    fn unmake(mut c: ArchNfComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); out.push(c.c_word.get()); out.push(c.c_byte.get()); }
            1 => { out.push(c.get::<CInl>().get()); out.push(c.get::<CWord>().get()); out.push(c.get::<CByte>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CWord>().get(); let _ = c.get_mut::<CByte>().get(); let t: (CInl, CWord, CByte,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNf> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl, CWord, CByte,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNf as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); cb(1, v.c_word); cb(2, v.c_byte); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } }
    }
    fn view_entity(v: &<ArchNf as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNf as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]); cb(1, &mut s.c_word[i]); cb(2, &mut s.c_byte[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNf as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n || s.c_word.len() != n || s.c_byte.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), 1 => slice_form::<Self, CWord>(self, form, cb), 2 => slice_form::<Self, CByte>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), 1 => mk_guard_slice::<Self, CWord>(self, mutable), 2 => mk_guard_slice::<Self, CByte>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNf as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNf { const NCOLS: usize = 3; }
impl From<PanicInto<ArchNf>> for ArchNfComponents { fn from(p: PanicInto<ArchNf>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNf as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNg {
    const IDX: usize = 6;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNgComponents {
        let c = (<CStr as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchNgComponents { c_str: c.0 }
    }
    fn unmake(mut c: ArchNgComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_str.get()); }
            1 => { out.push(c.get::<CStr>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CStr>().get(); let t: (CStr,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNg> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CStr,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNg as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_str); }
        else { { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchNg as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNg as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_str[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNg as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_str.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CStr>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CStr>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNg as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNg { const NCOLS: usize = 1; }
impl From<PanicInto<ArchNg>> for ArchNgComponents { fn from(p: PanicInto<ArchNg>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNg as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNh {
    const IDX: usize = 7;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNhComponents {
        let c = (<CInl as Comp>::make(v[0]), <CStr as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNhComponents { c_inl: c.0, c_str: c.1 }
    }
    fn unmake(mut c: ArchNhComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); out.push(c.c_str.get()); }
            1 => { out.push(c.get::<CInl>().get()); out.push(c.get::<CStr>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CStr>().get(); let t: (CInl, CStr,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNh> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl, CStr,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNh as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); cb(1, v.c_str); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNh as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNh as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]); cb(1, &mut s.c_str[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNh as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n || s.c_str.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), 1 => slice_form::<Self, CStr>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), 1 => mk_guard_slice::<Self, CStr>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNh as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNh { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNh>> for ArchNhComponents { fn from(p: PanicInto<ArchNh>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNh as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNi {
    const IDX: usize = 8;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNiComponents {
        let c = (<CWord as Comp>::make(v[0]), <CByte as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNiComponents { c_word: c.0, c_byte: c.1 }
    }
    fn unmake(mut c: ArchNiComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_word.get()); out.push(c.c_byte.get()); }
            1 => { out.push(c.get::<CWord>().get()); out.push(c.get::<CByte>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CWord>().get(); let _ = c.get_mut::<CByte>().get(); let t: (CWord, CByte,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNi> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CWord, CByte,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNi as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_word); cb(1, v.c_byte); }
        else { { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNi as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNi as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_word[i]); cb(1, &mut s.c_byte[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNi as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_word.len() != n || s.c_byte.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CWord>(self, form, cb), 1 => slice_form::<Self, CByte>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CWord>(self, mutable), 1 => mk_guard_slice::<Self, CByte>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNi as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNi { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNi>> for ArchNiComponents { fn from(p: PanicInto<ArchNi>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNi as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNj {
    const IDX: usize = 9;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNjComponents {
        let c = (<CZst as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchNjComponents { c_zst: c.0 }
    }
    fn unmake(mut c: ArchNjComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_zst.get()); }
            1 => { out.push(c.get::<CZst>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CZst>().get(); let t: (CZst,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNj> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CZst,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNj as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_zst); }
        else { { let s = v.component::<CZst>().get(); let m = v.component_mut::<CZst>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchNj as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNj as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_zst[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNj as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_zst.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CZst>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CZst>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNj as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CZst>())) } else { Box::new(GR(b.component::<CZst>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNj { const NCOLS: usize = 1; }
impl From<PanicInto<ArchNj>> for ArchNjComponents { fn from(p: PanicInto<ArchNj>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNj as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNk {
    const IDX: usize = 10;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNkComponents {
        let c = (<CStr as Comp>::make(v[0]), <CByte as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNkComponents { c_str: c.0, c_byte: c.1 }
    }
    fn unmake(mut c: ArchNkComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_str.get()); out.push(c.c_byte.get()); }
            1 => { out.push(c.get::<CStr>().get()); out.push(c.get::<CByte>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CStr>().get(); let _ = c.get_mut::<CByte>().get(); let t: (CStr, CByte,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNk> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CStr, CByte,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNk as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_str); cb(1, v.c_byte); }
        else { { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNk as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNk as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_str[i]); cb(1, &mut s.c_byte[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNk as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_str.len() != n || s.c_byte.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CStr>(self, form, cb), 1 => slice_form::<Self, CByte>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CStr>(self, mutable), 1 => mk_guard_slice::<Self, CByte>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNk as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNk { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNk>> for ArchNkComponents { fn from(p: PanicInto<ArchNk>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNk as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchNl {
    const IDX: usize = 11;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchNlComponents {
        let c = (<CInl as Comp>::make(v[0]), <CZst as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchNlComponents { c_inl: c.0, c_zst: c.1 }
    }
    fn unmake(mut c: ArchNlComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); out.push(c.c_zst.get()); }
            1 => { out.push(c.get::<CInl>().get()); out.push(c.get::<CZst>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CZst>().get(); let t: (CInl, CZst,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchNl> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl, CZst,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchNl as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); cb(1, v.c_zst); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CZst>().get(); let m = v.component_mut::<CZst>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchNl as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchNl as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]); cb(1, &mut s.c_zst[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchNl as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n || s.c_zst.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), 1 => slice_form::<Self, CZst>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), 1 => mk_guard_slice::<Self, CZst>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchNl as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CZst>())) } else { Box::new(GR(b.component::<CZst>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchNl { const NCOLS: usize = 2; }
impl From<PanicInto<ArchNl>> for ArchNlComponents { fn from(p: PanicInto<ArchNl>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchNl as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for WorldMany {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = WorldMany::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(WorldMany { arch_nl: self.arch_nl.clone(), arch_nk: self.arch_nk.clone(), arch_nj: self.arch_nj.clone(), arch_ni: self.arch_ni.clone(), arch_nh: self.arch_nh.clone(), arch_ng: self.arch_ng.clone(), arch_nf: self.arch_nf.clone(), arch_ne: self.arch_ne.clone(), arch_nd: self.arch_nd.clone(), arch_nc: self.arch_nc.clone(), arch_nb: self.arch_nb.clone(), arch_na: self.arch_na.clone() }),
        4 => { let mut x = WorldMany::default(); x.arch_na.clone_from(&self.arch_na); x.arch_nb.clone_from(&self.arch_nb); x.arch_nc.clone_from(&self.arch_nc); x.arch_nd.clone_from(&self.arch_nd); x.arch_ne.clone_from(&self.arch_ne); x.arch_nf.clone_from(&self.arch_nf); x.arch_ng.clone_from(&self.arch_ng); x.arch_nh.clone_from(&self.arch_nh); x.arch_ni.clone_from(&self.arch_ni); x.arch_nj.clone_from(&self.arch_nj); x.arch_nk.clone_from(&self.arch_nk); x.arch_nl.clone_from(&self.arch_nl); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = WorldMany::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_na, &mut y.arch_na); std::mem::swap(&mut x.arch_nb, &mut y.arch_nb); std::mem::swap(&mut x.arch_nc, &mut y.arch_nc); std::mem::swap(&mut x.arch_nd, &mut y.arch_nd); std::mem::swap(&mut x.arch_ne, &mut y.arch_ne); std::mem::swap(&mut x.arch_nf, &mut y.arch_nf); std::mem::swap(&mut x.arch_ng, &mut y.arch_ng); std::mem::swap(&mut x.arch_nh, &mut y.arch_nh); std::mem::swap(&mut x.arch_ni, &mut y.arch_ni); std::mem::swap(&mut x.arch_nj, &mut y.arch_nj); std::mem::swap(&mut x.arch_nk, &mut y.arch_nk); std::mem::swap(&mut x.arch_nl, &mut y.arch_nl); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<WorldMany>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_na.clone_from(&of.arch_na); self.arch_nb.clone_from(&of.arch_nb); self.arch_nc.clone_from(&of.arch_nc); self.arch_nd.clone_from(&of.arch_nd); self.arch_ne.clone_from(&of.arch_ne); self.arch_nf.clone_from(&of.arch_nf); self.arch_ng.clone_from(&of.arch_ng); self.arch_nh.clone_from(&of.arch_nh); self.arch_ni.clone_from(&of.arch_ni); self.arch_nj.clone_from(&of.arch_nj); self.arch_nk.clone_from(&of.arch_nk); self.arch_nl.clone_from(&of.arch_nl); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_na, 1 => &self.arch_nb, 2 => &self.arch_nc, 3 => &self.arch_nd, 4 => &self.arch_ne, 5 => &self.arch_nf, 6 => &self.arch_ng, 7 => &self.arch_nh, 8 => &self.arch_ni, 9 => &self.arch_nj, 10 => &self.arch_nk, 11 => &self.arch_nl, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_na, 1 => &mut self.arch_nb, 2 => &mut self.arch_nc, 3 => &mut self.arch_nd, 4 => &mut self.arch_ne, 5 => &mut self.arch_nf, 6 => &mut self.arch_ng, 7 => &mut self.arch_nh, 8 => &mut self.arch_ni, 9 => &mut self.arch_nj, 10 => &mut self.arch_nk, 11 => &mut self.arch_nl, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchNa, 1 ArchNb, 2 ArchNc, 3 ArchNd, 4 ArchNe, 5 ArchNf, 6 ArchNg, 7 ArchNh, 8 ArchNi, 9 ArchNj, 10 ArchNk, 11 ArchNl], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchNa, 1 ArchNb, 2 ArchNc, 3 ArchNd, 4 ArchNe, 5 ArchNf, 6 ArchNg, 7 ArchNh, 8 ArchNi, 9 ArchNj, 10 ArchNk, 11 ArchNl], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchNa>(self, k, form, out),
        Some(1) => w_destroy_typed::<Self, ArchNb>(self, k, form, out),
        Some(2) => w_destroy_typed::<Self, ArchNc>(self, k, form, out),
        Some(3) => w_destroy_typed::<Self, ArchNd>(self, k, form, out),
        Some(4) => w_destroy_typed::<Self, ArchNe>(self, k, form, out),
        Some(5) => w_destroy_typed::<Self, ArchNf>(self, k, form, out),
        Some(6) => w_destroy_typed::<Self, ArchNg>(self, k, form, out),
        Some(7) => w_destroy_typed::<Self, ArchNh>(self, k, form, out),
        Some(8) => w_destroy_typed::<Self, ArchNi>(self, k, form, out),
        Some(9) => w_destroy_typed::<Self, ArchNj>(self, k, form, out),
        Some(10) => w_destroy_typed::<Self, ArchNk>(self, k, form, out),
        Some(11) => w_destroy_typed::<Self, ArchNl>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchNa>(self, k, form, cb),
        Some(1) => w_view_typed::<Self, ArchNb>(self, k, form, cb),
        Some(2) => w_view_typed::<Self, ArchNc>(self, k, form, cb),
        Some(3) => w_view_typed::<Self, ArchNd>(self, k, form, cb),
        Some(4) => w_view_typed::<Self, ArchNe>(self, k, form, cb),
        Some(5) => w_view_typed::<Self, ArchNf>(self, k, form, cb),
        Some(6) => w_view_typed::<Self, ArchNg>(self, k, form, cb),
        Some(7) => w_view_typed::<Self, ArchNh>(self, k, form, cb),
        Some(8) => w_view_typed::<Self, ArchNi>(self, k, form, cb),
        Some(9) => w_view_typed::<Self, ArchNj>(self, k, form, cb),
        Some(10) => w_view_typed::<Self, ArchNk>(self, k, form, cb),
        Some(11) => w_view_typed::<Self, ArchNl>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchNa>(self, k, form, cb),
        Some(1) => w_borrow_typed::<Self, ArchNb>(self, k, form, cb),
        Some(2) => w_borrow_typed::<Self, ArchNc>(self, k, form, cb),
        Some(3) => w_borrow_typed::<Self, ArchNd>(self, k, form, cb),
        Some(4) => w_borrow_typed::<Self, ArchNe>(self, k, form, cb),
        Some(5) => w_borrow_typed::<Self, ArchNf>(self, k, form, cb),
        Some(6) => w_borrow_typed::<Self, ArchNg>(self, k, form, cb),
        Some(7) => w_borrow_typed::<Self, ArchNh>(self, k, form, cb),
        Some(8) => w_borrow_typed::<Self, ArchNi>(self, k, form, cb),
        Some(9) => w_borrow_typed::<Self, ArchNj>(self, k, form, cb),
        Some(10) => w_borrow_typed::<Self, ArchNk>(self, k, form, cb),
        Some(11) => w_borrow_typed::<Self, ArchNl>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchNa>(self, v, ids, form), 1 => w_create_typed::<Self, ArchNb>(self, v, ids, form), 2 => w_create_typed::<Self, ArchNc>(self, v, ids, form), 3 => w_create_typed::<Self, ArchNd>(self, v, ids, form), 4 => w_create_typed::<Self, ArchNe>(self, v, ids, form), 5 => w_create_typed::<Self, ArchNf>(self, v, ids, form), 6 => w_create_typed::<Self, ArchNg>(self, v, ids, form), 7 => w_create_typed::<Self, ArchNh>(self, v, ids, form), 8 => w_create_typed::<Self, ArchNi>(self, v, ids, form), 9 => w_create_typed::<Self, ArchNj>(self, v, ids, form), 10 => w_create_typed::<Self, ArchNk>(self, v, ids, form), 11 => w_create_typed::<Self, ArchNl>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchNa>(self, v, ids, form, out), 1 => w_create_wc_typed::<Self, ArchNb>(self, v, ids, form, out), 2 => w_create_wc_typed::<Self, ArchNc>(self, v, ids, form, out), 3 => w_create_wc_typed::<Self, ArchNd>(self, v, ids, form, out), 4 => w_create_wc_typed::<Self, ArchNe>(self, v, ids, form, out), 5 => w_create_wc_typed::<Self, ArchNf>(self, v, ids, form, out), 6 => w_create_wc_typed::<Self, ArchNg>(self, v, ids, form, out), 7 => w_create_wc_typed::<Self, ArchNh>(self, v, ids, form, out), 8 => w_create_wc_typed::<Self, ArchNi>(self, v, ids, form, out), 9 => w_create_wc_typed::<Self, ArchNj>(self, v, ids, form, out), 10 => w_create_wc_typed::<Self, ArchNk>(self, v, ids, form, out), 11 => w_create_wc_typed::<Self, ArchNl>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchNa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchNa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchNb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchNb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchNc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchNc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchNd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchNd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchNe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchNe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchNf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchNf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(6), EntP::E(h), _) => { let h = ke::<ArchNg>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(6), EntP::D(h), _) => { let h = kd::<ArchNg>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(7), EntP::E(h), _) => { let h = ke::<ArchNh>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(7), EntP::D(h), _) => { let h = kd::<ArchNh>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(8), EntP::E(h), _) => { let h = ke::<ArchNi>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(8), EntP::D(h), _) => { let h = kd::<ArchNi>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(9), EntP::E(h), _) => { let h = ke::<ArchNj>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(9), EntP::D(h), _) => { let h = kd::<ArchNj>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(10), EntP::E(h), _) => { let h = ke::<ArchNk>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(10), EntP::D(h), _) => { let h = kd::<ArchNk>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(11), EntP::E(h), _) => { let h = ke::<ArchNl>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(11), EntP::D(h), _) => { let h = kd::<ArchNl>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchNa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchNa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchNb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchNb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchNc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchNc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchNd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchNd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchNe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchNe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchNf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchNf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(6), EntP::E(h), _) => { let h = ke::<ArchNg>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(6), EntP::D(h), _) => { let h = kd::<ArchNg>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(7), EntP::E(h), _) => { let h = ke::<ArchNh>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(7), EntP::D(h), _) => { let h = kd::<ArchNh>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(8), EntP::E(h), _) => { let h = ke::<ArchNi>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(8), EntP::D(h), _) => { let h = kd::<ArchNi>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(9), EntP::E(h), _) => { let h = ke::<ArchNj>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(9), EntP::D(h), _) => { let h = kd::<ArchNj>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(10), EntP::E(h), _) => { let h = ke::<ArchNk>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(10), EntP::D(h), _) => { let h = kd::<ArchNk>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(11), EntP::E(h), _) => { let h = ke::<ArchNl>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(11), EntP::D(h), _) => { let h = kd::<ArchNl>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter!(world, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter!(world, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter_borrow!(world, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter_borrow!(world, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &EntityAny, p1: &mut OneOf<CWord, CZst>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &CByte, p2: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::R(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        4 => { ecs_iter_destroy!(world, |p0: &mut CWord, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        5 => { ecs_iter_destroy!(world, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        0 => match kind {
            0 => { ecs_iter!(world, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((8, &mut world.arch_ni)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((8, &mut world.arch_ni)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((8, &mut world.arch_ni)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &Entity<ArchNh>, p1: &EntityDirect<ArchNh>, p2: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((8, &mut world.arch_ni)) }) }; let _ = r; }); } } }
        },
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(WorldMany::with_capacity(WorldManyCapacity { arch_na: c[0], arch_nb: c[1], arch_nc: c[2], arch_nd: c[3], arch_ne: c[4], arch_nf: c[5], arch_ng: c[6], arch_nh: c[7], arch_ni: c[8], arch_nj: c[9], arch_nk: c[10], arch_nl: c[11] })),
    1 => Box::new(WorldMany::new()),
    2 => Box::new(WorldMany::default()),
    _ => Box::new(WorldMany { arch_na: ArchNa::with_capacity(c[0]), arch_nb: ArchNb::with_capacity(c[1]), arch_nc: ArchNc::with_capacity(c[2]), arch_nd: ArchNd::with_capacity(c[3]), arch_ne: ArchNe::with_capacity(c[4]), arch_nf: ArchNf::with_capacity(c[5]), arch_ng: ArchNg::with_capacity(c[6]), arch_nh: ArchNh::with_capacity(c[7]), arch_ni: ArchNi::with_capacity(c[8]), arch_nj: ArchNj::with_capacity(c[9]), arch_nk: ArchNk::with_capacity(c[10]), arch_nl: ArchNl::with_capacity(c[11]) }),
} }
