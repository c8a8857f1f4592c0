// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    #[cfg(any())]
    ecs_archetype!(ArchGoneA, CInl);
    ecs_archetype!(ArchCa, #[cfg(any())] CNowhere, CInl, #[cfg(all())] CStr);
    #[cfg(all(any(), all()))]
    #[archetype_id(77)]
    ecs_archetype!(ArchGoneB, CStr, CInl);
    #[archetype_id(10)]
    ecs_archetype!(ArchCb, #[component_id(5)] CStr, #[cfg(any())] CNowhere, COdd, #[component_id(0)] CInl);
    #[cfg(any())]
    ecs_archetype!(ArchGoneC, CNowhere);
    ecs_archetype!(ArchCc, #[component_id(255)] CByte, #[component_id(1)] CInl, #[cfg(any())] CNowhere, CWord);
    #[archetype_id(4)]
    ecs_archetype!(ArchCd, CWord, #[cfg(any())] CNowhere);
}

pub const IDS: &[u8] = &[0, 10, 11, 4];
#[inline] fn aix(id: u8) -> usize { match id { 0 => 0, 10 => 1, 11 => 2, 4 => 3, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "cfgs", ids: IDS, archs: &[
    ArchMeta { name: "ArchCa", kinds: &[<CInl as Comp>::KIND, <CStr as Comp>::KIND] },
    ArchMeta { name: "ArchCb", kinds: &[<CStr as Comp>::KIND, <COdd as Comp>::KIND, <CInl as Comp>::KIND] },
    ArchMeta { name: "ArchCc", kinds: &[<CByte as Comp>::KIND, <CInl as Comp>::KIND, <CWord as Comp>::KIND] },
    ArchMeta { name: "ArchCd", kinds: &[<CWord as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(0, true)]), Some(&[(2, true)]), Some(&[(1, true)]), None], ents: "E", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[]), Some(&[]), Some(&[]), Some(&[])], ents: "DE", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[(1, true), (0, false)]), Some(&[(0, true), (2, false)]), None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, Some(&[(2, true)]), Some(&[(0, true)])], ents: "ED", typed: true, refs: false },
    QuerySpec { binds: &[None, Some(&[(1, true), (0, true)]), None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, Some(&[(0, false), (2, true)]), None], ents: "DE", typed: false, refs: false },
], sneaky: &[(4, 3), (5, 0)] };

impl ArchComps for ArchCa {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchCaComponents {
        let c = (<CInl as Comp>::make(v[0]), <CStr as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchCaComponents { c_inl: c.0, c_str: c.1 }
    }
    fn unmake(mut c: ArchCaComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); out.push(c.c_str.get()); }
            1 => { out.push(c.get::<CInl>().get()); out.push(c.get::<CStr>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CStr>().get(); let t: (CInl, CStr,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchCa> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl, CStr,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchCa as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); cb(1, v.c_str); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchCa as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchCa as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]); cb(1, &mut s.c_str[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchCa as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n || s.c_str.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), 1 => slice_form::<Self, CStr>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), 1 => mk_guard_slice::<Self, CStr>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchCa as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchCa { const NCOLS: usize = 2; }
impl From<PanicInto<ArchCa>> for ArchCaComponents { fn from(p: PanicInto<ArchCa>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchCa as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchCb {
    const IDX: usize = 1;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchCbComponents {
        let c = (<CStr as Comp>::make(v[0]), <COdd as Comp>::make(v[1]), <CInl as Comp>::make(v[2]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid);
        ArchCbComponents { c_str: c.0, c_odd: c.1, c_inl: c.2 }
    }
    fn unmake(mut c: ArchCbComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_str.get()); out.push(c.c_odd.get()); out.push(c.c_inl.get()); }
            1 => { out.push(c.get::<CStr>().get()); out.push(c.get::<COdd>().get()); out.push(c.get::<CInl>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
            _ => { let _ = c.get_mut::<CStr>().get(); let _ = c.get_mut::<COdd>().get(); let _ = c.get_mut::<CInl>().get(); let t: (CStr, COdd, CInl,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchCb> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CStr, COdd, CInl,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchCb as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_str); cb(1, v.c_odd); cb(2, v.c_inl); }
        else { { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<COdd>().get(); let m = v.component_mut::<COdd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } }
    }
    fn view_entity(v: &<ArchCb as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchCb as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_str[i]); cb(1, &mut s.c_odd[i]); cb(2, &mut s.c_inl[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchCb as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_str.len() != n || s.c_odd.len() != n || s.c_inl.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CStr>(self, form, cb), 1 => slice_form::<Self, COdd>(self, form, cb), 2 => slice_form::<Self, CInl>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CStr>(self, mutable), 1 => mk_guard_slice::<Self, COdd>(self, mutable), 2 => mk_guard_slice::<Self, CInl>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchCb as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<COdd>())) } else { Box::new(GR(b.component::<COdd>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchCb { const NCOLS: usize = 3; }
impl From<PanicInto<ArchCb>> for ArchCbComponents { fn from(p: PanicInto<ArchCb>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchCb as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchCc {
    const IDX: usize = 2;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchCcComponents {
        let c = (<CByte as Comp>::make(v[0]), <CInl as Comp>::make(v[1]), <CWord as Comp>::make(v[2]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid);
        ArchCcComponents { c_byte: c.0, c_inl: c.1, c_word: c.2 }
    }
    fn unmake(mut c: ArchCcComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_byte.get()); out.push(c.c_inl.get()); out.push(c.c_word.get()); }
            1 => { out.push(c.get::<CByte>().get()); out.push(c.get::<CInl>().get()); out.push(c.get::<CWord>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
            _ => { let _ = c.get_mut::<CByte>().get(); let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CWord>().get(); let t: (CByte, CInl, CWord,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchCc> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CByte, CInl, CWord,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchCc as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_byte); cb(1, v.c_inl); cb(2, v.c_word); }
        else { { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } }
    }
    fn view_entity(v: &<ArchCc as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchCc as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_byte[i]); cb(1, &mut s.c_inl[i]); cb(2, &mut s.c_word[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchCc as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_byte.len() != n || s.c_inl.len() != n || s.c_word.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CByte>(self, form, cb), 1 => slice_form::<Self, CInl>(self, form, cb), 2 => slice_form::<Self, CWord>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CByte>(self, mutable), 1 => mk_guard_slice::<Self, CInl>(self, mutable), 2 => mk_guard_slice::<Self, CWord>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchCc as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchCc { const NCOLS: usize = 3; }
impl From<PanicInto<ArchCc>> for ArchCcComponents { fn from(p: PanicInto<ArchCc>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchCc as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchCd {
    const IDX: usize = 3;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchCdComponents {
        let c = (<CWord as Comp>::make(v[0]),);
        ids.push(c.0.get().iid);
        ArchCdComponents { c_word: c.0 }
    }
    fn unmake(mut c: ArchCdComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_word.get()); }
            1 => { out.push(c.get::<CWord>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); }
            _ => { let _ = c.get_mut::<CWord>().get(); let t: (CWord,) = c.into(); out.push(t.0.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchCd> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CWord,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchCd as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_word); }
        else { { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } }
    }
    fn view_entity(v: &<ArchCd as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchCd as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_word[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchCd as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_word.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CWord>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CWord>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchCd as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchCd { const NCOLS: usize = 1; }
impl From<PanicInto<ArchCd>> for ArchCdComponents { fn from(p: PanicInto<ArchCd>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchCd as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for EcsWorld {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = EcsWorld::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(EcsWorld { arch_cd: self.arch_cd.clone(), arch_cc: self.arch_cc.clone(), arch_cb: self.arch_cb.clone(), arch_ca: self.arch_ca.clone() }),
        4 => { let mut x = EcsWorld::default(); x.arch_ca.clone_from(&self.arch_ca); x.arch_cb.clone_from(&self.arch_cb); x.arch_cc.clone_from(&self.arch_cc); x.arch_cd.clone_from(&self.arch_cd); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = EcsWorld::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_ca, &mut y.arch_ca); std::mem::swap(&mut x.arch_cb, &mut y.arch_cb); std::mem::swap(&mut x.arch_cc, &mut y.arch_cc); std::mem::swap(&mut x.arch_cd, &mut y.arch_cd); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<EcsWorld>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_ca.clone_from(&of.arch_ca); self.arch_cb.clone_from(&of.arch_cb); self.arch_cc.clone_from(&of.arch_cc); self.arch_cd.clone_from(&of.arch_cd); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_ca, 1 => &self.arch_cb, 2 => &self.arch_cc, 3 => &self.arch_cd, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_ca, 1 => &mut self.arch_cb, 2 => &mut self.arch_cc, 3 => &mut self.arch_cd, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchCa, 1 ArchCb, 2 ArchCc, 3 ArchCd], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchCa, 1 ArchCb, 2 ArchCc, 3 ArchCd], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchCa>(self, k, form, out),
        Some(1) => w_destroy_typed::<Self, ArchCb>(self, k, form, out),
        Some(2) => w_destroy_typed::<Self, ArchCc>(self, k, form, out),
        Some(3) => w_destroy_typed::<Self, ArchCd>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchCa>(self, k, form, cb),
        Some(1) => w_view_typed::<Self, ArchCb>(self, k, form, cb),
        Some(2) => w_view_typed::<Self, ArchCc>(self, k, form, cb),
        Some(3) => w_view_typed::<Self, ArchCd>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchCa>(self, k, form, cb),
        Some(1) => w_borrow_typed::<Self, ArchCb>(self, k, form, cb),
        Some(2) => w_borrow_typed::<Self, ArchCc>(self, k, form, cb),
        Some(3) => w_borrow_typed::<Self, ArchCd>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchCa>(self, v, ids, form), 1 => w_create_typed::<Self, ArchCb>(self, v, ids, form), 2 => w_create_typed::<Self, ArchCc>(self, v, ids, form), 3 => w_create_typed::<Self, ArchCd>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchCa>(self, v, ids, form, out), 1 => w_create_wc_typed::<Self, ArchCb>(self, v, ids, form, out), 2 => w_create_wc_typed::<Self, ArchCc>(self, v, ids, form, out), 3 => w_create_wc_typed::<Self, ArchCd>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchCa>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchCb>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchCc>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchCd>(h, k.conv); ecs_find_borrow!(world, h, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter!(world, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter!(world, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter_borrow!(world, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter_borrow!(world, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |#[cfg(any())] p0: &Entity<ArchCd>, p1: &Entity<_>, p2: &mut CWord, p3: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        4 => { ecs_iter_destroy!(world, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        5 => { ecs_iter_destroy!(world, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        0 => match kind {
            0 => { ecs_iter!(world, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: Some((3, &mut world.arch_cd)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: Some((3, &mut world.arch_cd)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: Some((3, &mut world.arch_cd)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |#[cfg(all())] p0: &Entity<ArchCb>, #[cfg(any())] p1: &CNowhere, p2: &mut COdd, p3: &mut CStr| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3)], other: Some((3, &mut world.arch_cd)) }) }; let _ = r; }); } } }
        },
        1 => match kind {
            0 => { ecs_iter!(world, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: Some((0, &mut world.arch_ca)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: Some((0, &mut world.arch_ca)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: Some((0, &mut world.arch_ca)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |#[cfg(all())] p0: &CByte, p1: &mut CWord, p2: &EntityDirect<ArchCc>, p3: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p2).into_any()), EntP::E((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p1)], other: Some((0, &mut world.arch_ca)) }) }; let _ = r; }); } } }
        },
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(EcsWorld::with_capacity(EcsWorldCapacity { arch_ca: c[0], arch_cb: c[1], arch_cc: c[2], arch_cd: c[3] })),
    1 => Box::new(EcsWorld::new()),
    2 => Box::new(EcsWorld::default()),
    _ => Box::new(EcsWorld { arch_ca: ArchCa::with_capacity(c[0]), arch_cb: ArchCb::with_capacity(c[1]), arch_cc: ArchCc::with_capacity(c[2]), arch_cd: ArchCd::with_capacity(c[3]) }),
} }
