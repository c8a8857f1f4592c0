// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    ecs_name!(WorldMix);
    ecs_archetype!(ArchMa, CBox, CByte, CInl, COdd);
    #[archetype_id(7)]
    ecs_archetype!(ArchMb, CInl, CStr, CZst, CAli);
    ecs_archetype!(ArchMc, CByte, CStr, CWord, CPad, CNil);
    #[archetype_id(200)]
    ecs_archetype!(ArchMd, CBig, CVec, CInl, CWord);
    #[archetype_id(3)]
    ecs_archetype!(ArchMe, CByte, CTri);
    ecs_archetype!(ArchMf, CHuge, COdd, CByte);
}

pub const IDS: &[u8] = &[0, 7, 8, 200, 3, 4];
#[inline] fn aix(id: u8) -> usize { match id { 0 => 0, 7 => 1, 8 => 2, 200 => 3, 3 => 4, 4 => 5, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "mix", ids: IDS, archs: &[
    ArchMeta { name: "ArchMa", kinds: &[<CBox as Comp>::KIND, <CByte as Comp>::KIND, <CInl as Comp>::KIND, <COdd as Comp>::KIND] },
    ArchMeta { name: "ArchMb", kinds: &[<CInl as Comp>::KIND, <CStr as Comp>::KIND, <CZst as Comp>::KIND, <CAli as Comp>::KIND] },
    ArchMeta { name: "ArchMc", kinds: &[<CByte as Comp>::KIND, <CStr as Comp>::KIND, <CWord as Comp>::KIND, <CPad as Comp>::KIND, <CNil as Comp>::KIND] },
    ArchMeta { name: "ArchMd", kinds: &[<CBig as Comp>::KIND, <CVec as Comp>::KIND, <CInl as Comp>::KIND, <CWord as Comp>::KIND] },
    ArchMeta { name: "ArchMe", kinds: &[<CByte as Comp>::KIND, <CTri as Comp>::KIND] },
    ArchMeta { name: "ArchMf", kinds: &[<CHuge as Comp>::KIND, <COdd as Comp>::KIND, <CByte as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(2, true)]), Some(&[(0, true)]), None, Some(&[(2, true)]), None, None], ents: "E", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[]), Some(&[])], ents: "DE", typed: true, refs: true },
    QuerySpec { binds: &[Some(&[(1, false), (0, false)]), None, Some(&[(0, false), (1, false)]), None, None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(1, true)]), None, Some(&[(0, true)]), None, Some(&[(0, true)]), Some(&[(2, true)])], ents: "DE", typed: true, refs: false },
    QuerySpec { binds: &[Some(&[(0, true), (1, false), (2, true), (3, true)]), None, None, None, None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, Some(&[(1, true), (3, true), (2, true)]), None, None, None, None], ents: "DE", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(0, true)]), Some(&[(3, true)]), Some(&[(2, true)]), Some(&[(3, true)]), None, None], ents: "E", typed: true, refs: false },
    QuerySpec { binds: &[None, None, Some(&[(2, false), (4, true)]), None, None, None], ents: "ED", typed: false, refs: false },
    QuerySpec { binds: &[None, None, None, Some(&[(1, true), (0, true), (2, false), (3, true)]), None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, None, Some(&[(2, false)]), None, None], ents: "DE", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(2, true)]), Some(&[(0, true)]), None, Some(&[(2, true)]), None, None], ents: "", typed: false, refs: false },
    QuerySpec { binds: &[None, None, Some(&[(1, true), (0, false)]), None, None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, None, None, Some(&[(0, true)]), None], ents: "DE", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(0, true), (1, false)]), None, Some(&[(1, true), (0, false)]), None, None, None], ents: "ED", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(3, true), (1, false)]), None, None, None, None, Some(&[(1, true), (2, false)])], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, None, None, None, Some(&[(1, true)]), Some(&[(0, true)])], ents: "D", typed: false, refs: false },
], sneaky: &[(4, 1), (12, 0), (8, 2)] };

impl ArchComps for ArchMa {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMaComponents {
        let c = (<CBox as Comp>::make(v[0]), <CByte as Comp>::make(v[1]), <CInl as Comp>::make(v[2]), <COdd as Comp>::make(v[3]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid);
        ArchMaComponents { c_box: c.0, c_byte: c.1, c_inl: c.2, c_odd: c.3 }
    }
    fn unmake(mut c: ArchMaComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_box.get()); out.push(c.c_byte.get()); out.push(c.c_inl.get()); out.push(c.c_odd.get()); }
            1 => { out.push(c.get::<CBox>().get()); out.push(c.get::<CByte>().get()); out.push(c.get::<CInl>().get()); out.push(c.get::<COdd>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
            _ => { let _ = c.get_mut::<CBox>().get(); let _ = c.get_mut::<CByte>().get(); let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<COdd>().get(); let t: (CBox, CByte, CInl, COdd,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMa> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CBox, CByte, CInl, COdd,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMa as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_box); cb(1, v.c_byte); cb(2, v.c_inl); cb(3, v.c_odd); }
        else { { let s = v.component::<CBox>().get(); let m = v.component_mut::<CBox>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<COdd>().get(); let m = v.component_mut::<COdd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } }
    }
    fn view_entity(v: &<ArchMa as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMa as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_box[i]); cb(1, &mut s.c_byte[i]); cb(2, &mut s.c_inl[i]); cb(3, &mut s.c_odd[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMa as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_box.len() != n || s.c_byte.len() != n || s.c_inl.len() != n || s.c_odd.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CBox>(self, form, cb), 1 => slice_form::<Self, CByte>(self, form, cb), 2 => slice_form::<Self, CInl>(self, form, cb), 3 => slice_form::<Self, COdd>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CBox>(self, mutable), 1 => mk_guard_slice::<Self, CByte>(self, mutable), 2 => mk_guard_slice::<Self, CInl>(self, mutable), 3 => mk_guard_slice::<Self, COdd>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMa as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CBox>())) } else { Box::new(GR(b.component::<CBox>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<COdd>())) } else { Box::new(GR(b.component::<COdd>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMa { const NCOLS: usize = 4; }
impl From<PanicInto<ArchMa>> for ArchMaComponents { fn from(p: PanicInto<ArchMa>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMa as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchMb {
    const IDX: usize = 1;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMbComponents {
        let c = (<CInl as Comp>::make(v[0]), <CStr as Comp>::make(v[1]), <CZst as Comp>::make(v[2]), <CAli as Comp>::make(v[3]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid);
        ArchMbComponents { c_inl: c.0, c_str: c.1, c_zst: c.2, c_ali: c.3 }
    }
    fn unmake(mut c: ArchMbComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_inl.get()); out.push(c.c_str.get()); out.push(c.c_zst.get()); out.push(c.c_ali.get()); }
            1 => { out.push(c.get::<CInl>().get()); out.push(c.get::<CStr>().get()); out.push(c.get::<CZst>().get()); out.push(c.get::<CAli>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
            _ => { let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CStr>().get(); let _ = c.get_mut::<CZst>().get(); let _ = c.get_mut::<CAli>().get(); let t: (CInl, CStr, CZst, CAli,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMb> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CInl, CStr, CZst, CAli,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMb as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_inl); cb(1, v.c_str); cb(2, v.c_zst); cb(3, v.c_ali); }
        else { { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CZst>().get(); let m = v.component_mut::<CZst>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<CAli>().get(); let m = v.component_mut::<CAli>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } }
    }
    fn view_entity(v: &<ArchMb as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMb as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_inl[i]); cb(1, &mut s.c_str[i]); cb(2, &mut s.c_zst[i]); cb(3, &mut s.c_ali[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMb as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_inl.len() != n || s.c_str.len() != n || s.c_zst.len() != n || s.c_ali.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CInl>(self, form, cb), 1 => slice_form::<Self, CStr>(self, form, cb), 2 => slice_form::<Self, CZst>(self, form, cb), 3 => slice_form::<Self, CAli>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CInl>(self, mutable), 1 => mk_guard_slice::<Self, CStr>(self, mutable), 2 => mk_guard_slice::<Self, CZst>(self, mutable), 3 => mk_guard_slice::<Self, CAli>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMb as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CZst>())) } else { Box::new(GR(b.component::<CZst>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<CAli>())) } else { Box::new(GR(b.component::<CAli>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMb { const NCOLS: usize = 4; }
impl From<PanicInto<ArchMb>> for ArchMbComponents { fn from(p: PanicInto<ArchMb>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMb as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchMc {
    const IDX: usize = 2;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMcComponents {
        let c = (<CByte as Comp>::make(v[0]), <CStr as Comp>::make(v[1]), <CWord as Comp>::make(v[2]), <CPad as Comp>::make(v[3]), <CNil as Comp>::make(v[4]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid);
        ArchMcComponents { c_byte: c.0, c_str: c.1, c_word: c.2, c_pad: c.3, c_nil: c.4 }
    }
    fn unmake(mut c: ArchMcComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_byte.get()); out.push(c.c_str.get()); out.push(c.c_word.get()); out.push(c.c_pad.get()); out.push(c.c_nil.get()); }
            1 => { out.push(c.get::<CByte>().get()); out.push(c.get::<CStr>().get()); out.push(c.get::<CWord>().get()); out.push(c.get::<CPad>().get()); out.push(c.get::<CNil>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); }
            _ => { let _ = c.get_mut::<CByte>().get(); let _ = c.get_mut::<CStr>().get(); let _ = c.get_mut::<CWord>().get(); let _ = c.get_mut::<CPad>().get(); let _ = c.get_mut::<CNil>().get(); let t: (CByte, CStr, CWord, CPad, CNil,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMc> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CByte, CStr, CWord, CPad, CNil,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMc as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_byte); cb(1, v.c_str); cb(2, v.c_word); cb(3, v.c_pad); cb(4, v.c_nil); }
        else { { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CStr>().get(); let m = v.component_mut::<CStr>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<CPad>().get(); let m = v.component_mut::<CPad>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<CNil>().get(); let m = v.component_mut::<CNil>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } }
    }
    fn view_entity(v: &<ArchMc as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMc as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_byte[i]); cb(1, &mut s.c_str[i]); cb(2, &mut s.c_word[i]); cb(3, &mut s.c_pad[i]); cb(4, &mut s.c_nil[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMc as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_byte.len() != n || s.c_str.len() != n || s.c_word.len() != n || s.c_pad.len() != n || s.c_nil.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CByte>(self, form, cb), 1 => slice_form::<Self, CStr>(self, form, cb), 2 => slice_form::<Self, CWord>(self, form, cb), 3 => slice_form::<Self, CPad>(self, form, cb), 4 => slice_form::<Self, CNil>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CByte>(self, mutable), 1 => mk_guard_slice::<Self, CStr>(self, mutable), 2 => mk_guard_slice::<Self, CWord>(self, mutable), 3 => mk_guard_slice::<Self, CPad>(self, mutable), 4 => mk_guard_slice::<Self, CNil>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMc as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CStr>())) } else { Box::new(GR(b.component::<CStr>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<CPad>())) } else { Box::new(GR(b.component::<CPad>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<CNil>())) } else { Box::new(GR(b.component::<CNil>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMc { const NCOLS: usize = 5; }
impl From<PanicInto<ArchMc>> for ArchMcComponents { fn from(p: PanicInto<ArchMc>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMc as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchMd {
    const IDX: usize = 3;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMdComponents {
        let c = (<CBig as Comp>::make(v[0]), <CVec as Comp>::make(v[1]), <CInl as Comp>::make(v[2]), <CWord as Comp>::make(v[3]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid);
        ArchMdComponents { c_big: c.0, c_vec: c.1, c_inl: c.2, c_word: c.3 }
    }
    fn unmake(mut c: ArchMdComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_big.get()); out.push(c.c_vec.get()); out.push(c.c_inl.get()); out.push(c.c_word.get()); }
            1 => { out.push(c.get::<CBig>().get()); out.push(c.get::<CVec>().get()); out.push(c.get::<CInl>().get()); out.push(c.get::<CWord>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
            _ => { let _ = c.get_mut::<CBig>().get(); let _ = c.get_mut::<CVec>().get(); let _ = c.get_mut::<CInl>().get(); let _ = c.get_mut::<CWord>().get(); let t: (CBig, CVec, CInl, CWord,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMd> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CBig, CVec, CInl, CWord,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMd as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_big); cb(1, v.c_vec); cb(2, v.c_inl); cb(3, v.c_word); }
        else { { let s = v.component::<CBig>().get(); let m = v.component_mut::<CBig>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CVec>().get(); let m = v.component_mut::<CVec>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CInl>().get(); let m = v.component_mut::<CInl>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<CWord>().get(); let m = v.component_mut::<CWord>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } }
    }
    fn view_entity(v: &<ArchMd as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMd as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_big[i]); cb(1, &mut s.c_vec[i]); cb(2, &mut s.c_inl[i]); cb(3, &mut s.c_word[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMd as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_big.len() != n || s.c_vec.len() != n || s.c_inl.len() != n || s.c_word.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CBig>(self, form, cb), 1 => slice_form::<Self, CVec>(self, form, cb), 2 => slice_form::<Self, CInl>(self, form, cb), 3 => slice_form::<Self, CWord>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CBig>(self, mutable), 1 => mk_guard_slice::<Self, CVec>(self, mutable), 2 => mk_guard_slice::<Self, CInl>(self, mutable), 3 => mk_guard_slice::<Self, CWord>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMd as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CBig>())) } else { Box::new(GR(b.component::<CBig>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CVec>())) } else { Box::new(GR(b.component::<CVec>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CInl>())) } else { Box::new(GR(b.component::<CInl>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<CWord>())) } else { Box::new(GR(b.component::<CWord>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMd { const NCOLS: usize = 4; }
impl From<PanicInto<ArchMd>> for ArchMdComponents { fn from(p: PanicInto<ArchMd>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMd as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchMe {
    const IDX: usize = 4;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMeComponents {
        let c = (<CByte as Comp>::make(v[0]), <CTri as Comp>::make(v[1]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid);
        ArchMeComponents { c_byte: c.0, c_tri: c.1 }
    }
    fn unmake(mut c: ArchMeComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_byte.get()); out.push(c.c_tri.get()); }
            1 => { out.push(c.get::<CByte>().get()); out.push(c.get::<CTri>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); }
            _ => { let _ = c.get_mut::<CByte>().get(); let _ = c.get_mut::<CTri>().get(); let t: (CByte, CTri,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMe> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CByte, CTri,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMe as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_byte); cb(1, v.c_tri); }
        else { { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<CTri>().get(); let m = v.component_mut::<CTri>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } }
    }
    fn view_entity(v: &<ArchMe as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMe as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_byte[i]); cb(1, &mut s.c_tri[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMe as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_byte.len() != n || s.c_tri.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CByte>(self, form, cb), 1 => slice_form::<Self, CTri>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CByte>(self, mutable), 1 => mk_guard_slice::<Self, CTri>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMe as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<CTri>())) } else { Box::new(GR(b.component::<CTri>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMe { const NCOLS: usize = 2; }
impl From<PanicInto<ArchMe>> for ArchMeComponents { fn from(p: PanicInto<ArchMe>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMe as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchMf {
    const IDX: usize = 5;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchMfComponents {
        let c = (<CHuge as Comp>::make(v[0]), <COdd as Comp>::make(v[1]), <CByte as Comp>::make(v[2]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid);
        ArchMfComponents { c_huge: c.0, c_odd: c.1, c_byte: c.2 }
    }
    fn unmake(mut c: ArchMfComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.c_huge.get()); out.push(c.c_odd.get()); out.push(c.c_byte.get()); }
            1 => { out.push(c.get::<CHuge>().get()); out.push(c.get::<COdd>().get()); out.push(c.get::<CByte>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
            _ => { let _ = c.get_mut::<CHuge>().get(); let _ = c.get_mut::<COdd>().get(); let _ = c.get_mut::<CByte>().get(); let t: (CHuge, COdd, CByte,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchMf> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (CHuge, COdd, CByte,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchMf as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.c_huge); cb(1, v.c_odd); cb(2, v.c_byte); }
        else { { let s = v.component::<CHuge>().get(); let m = v.component_mut::<CHuge>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<COdd>().get(); let m = v.component_mut::<COdd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<CByte>().get(); let m = v.component_mut::<CByte>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } }
    }
    fn view_entity(v: &<ArchMf as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchMf as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.c_huge[i]); cb(1, &mut s.c_odd[i]); cb(2, &mut s.c_byte[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchMf as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.c_huge.len() != n || s.c_odd.len() != n || s.c_byte.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, CHuge>(self, form, cb), 1 => slice_form::<Self, COdd>(self, form, cb), 2 => slice_form::<Self, CByte>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, CHuge>(self, mutable), 1 => mk_guard_slice::<Self, COdd>(self, mutable), 2 => mk_guard_slice::<Self, CByte>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchMf as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<CHuge>())) } else { Box::new(GR(b.component::<CHuge>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<COdd>())) } else { Box::new(GR(b.component::<COdd>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<CByte>())) } else { Box::new(GR(b.component::<CByte>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchMf { const NCOLS: usize = 3; }
impl From<PanicInto<ArchMf>> for ArchMfComponents { fn from(p: PanicInto<ArchMf>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchMf as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for WorldMix {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = WorldMix::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(WorldMix { arch_mf: self.arch_mf.clone(), arch_me: self.arch_me.clone(), arch_md: self.arch_md.clone(), arch_mc: self.arch_mc.clone(), arch_mb: self.arch_mb.clone(), arch_ma: self.arch_ma.clone() }),
        4 => { let mut x = WorldMix::default(); x.arch_ma.clone_from(&self.arch_ma); x.arch_mb.clone_from(&self.arch_mb); x.arch_mc.clone_from(&self.arch_mc); x.arch_md.clone_from(&self.arch_md); x.arch_me.clone_from(&self.arch_me); x.arch_mf.clone_from(&self.arch_mf); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = WorldMix::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_ma, &mut y.arch_ma); std::mem::swap(&mut x.arch_mb, &mut y.arch_mb); std::mem::swap(&mut x.arch_mc, &mut y.arch_mc); std::mem::swap(&mut x.arch_md, &mut y.arch_md); std::mem::swap(&mut x.arch_me, &mut y.arch_me); std::mem::swap(&mut x.arch_mf, &mut y.arch_mf); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<WorldMix>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_ma.clone_from(&of.arch_ma); self.arch_mb.clone_from(&of.arch_mb); self.arch_mc.clone_from(&of.arch_mc); self.arch_md.clone_from(&of.arch_md); self.arch_me.clone_from(&of.arch_me); self.arch_mf.clone_from(&of.arch_mf); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_ma, 1 => &self.arch_mb, 2 => &self.arch_mc, 3 => &self.arch_md, 4 => &self.arch_me, 5 => &self.arch_mf, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_ma, 1 => &mut self.arch_mb, 2 => &mut self.arch_mc, 3 => &mut self.arch_md, 4 => &mut self.arch_me, 5 => &mut self.arch_mf, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchMa, 1 ArchMb, 2 ArchMc, 3 ArchMd, 4 ArchMe, 5 ArchMf], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchMa, 1 ArchMb, 2 ArchMc, 3 ArchMd, 4 ArchMe, 5 ArchMf], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchMa>(self, k, form, out),
        Some(1) => w_destroy_typed::<Self, ArchMb>(self, k, form, out),
        Some(2) => w_destroy_typed::<Self, ArchMc>(self, k, form, out),
        Some(3) => w_destroy_typed::<Self, ArchMd>(self, k, form, out),
        Some(4) => w_destroy_typed::<Self, ArchMe>(self, k, form, out),
        Some(5) => w_destroy_typed::<Self, ArchMf>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchMa>(self, k, form, cb),
        Some(1) => w_view_typed::<Self, ArchMb>(self, k, form, cb),
        Some(2) => w_view_typed::<Self, ArchMc>(self, k, form, cb),
        Some(3) => w_view_typed::<Self, ArchMd>(self, k, form, cb),
        Some(4) => w_view_typed::<Self, ArchMe>(self, k, form, cb),
        Some(5) => w_view_typed::<Self, ArchMf>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchMa>(self, k, form, cb),
        Some(1) => w_borrow_typed::<Self, ArchMb>(self, k, form, cb),
        Some(2) => w_borrow_typed::<Self, ArchMc>(self, k, form, cb),
        Some(3) => w_borrow_typed::<Self, ArchMd>(self, k, form, cb),
        Some(4) => w_borrow_typed::<Self, ArchMe>(self, k, form, cb),
        Some(5) => w_borrow_typed::<Self, ArchMf>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchMa>(self, v, ids, form), 1 => w_create_typed::<Self, ArchMb>(self, v, ids, form), 2 => w_create_typed::<Self, ArchMc>(self, v, ids, form), 3 => w_create_typed::<Self, ArchMd>(self, v, ids, form), 4 => w_create_typed::<Self, ArchMe>(self, v, ids, form), 5 => w_create_typed::<Self, ArchMf>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchMa>(self, v, ids, form, out), 1 => w_create_wc_typed::<Self, ArchMb>(self, v, ids, form, out), 2 => w_create_wc_typed::<Self, ArchMc>(self, v, ids, form, out), 3 => w_create_wc_typed::<Self, ArchMd>(self, v, ids, form, out), 4 => w_create_wc_typed::<Self, ArchMe>(self, v, ids, form, out), 5 => w_create_wc_typed::<Self, ArchMf>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        6 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        7 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        8 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        9 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        10 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        11 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        12 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        13 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        14 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        15 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirectAny, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        6 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchMa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchMb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchMc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchMd>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::E(h), _) => { let h = ke::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(4), EntP::D(h), _) => { let h = kd::<ArchMe>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::E(h), _) => { let h = ke::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(5), EntP::D(h), _) => { let h = kd::<ArchMf>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        7 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        8 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        9 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        10 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        11 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        12 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        13 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        14 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        15 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter!(world, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter!(world, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        6 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        7 => { ecs_iter!(world, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        8 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        9 => { ecs_iter!(world, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        10 => { ecs_iter!(world, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        11 => { ecs_iter!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        12 => { ecs_iter!(world, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        13 => { ecs_iter!(world, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        14 => { ecs_iter!(world, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        15 => { ecs_iter!(world, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter_borrow!(world, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter_borrow!(world, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        6 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        7 => { ecs_iter_borrow!(world, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        8 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        9 => { ecs_iter_borrow!(world, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        10 => { ecs_iter_borrow!(world, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        11 => { ecs_iter_borrow!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        12 => { ecs_iter_borrow!(world, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        13 => { ecs_iter_borrow!(world, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        14 => { ecs_iter_borrow!(world, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        15 => { ecs_iter_borrow!(world, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &EntityAny, p1: &CByte, p2: &OneOf<CBox, CStr>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &Entity<_>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        4 => { ecs_iter_destroy!(world, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        5 => { ecs_iter_destroy!(world, |p0: &EntityDirect<ArchMb>, p1: &EntityAny, p2: &mut CStr, p3: &mut CAli, p4: &mut CZst| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::M(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        6 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut OneOf<CBox, CAli, CWord>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        7 => { ecs_iter_destroy!(world, |p0: &CWord, p1: &EntityAny, p2: &mut CNil, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p1).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::R(p0), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        8 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        9 => { ecs_iter_destroy!(world, |p0: &CInl, p1: &EntityDirect<_>, p2: &Entity<ArchMd>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any()), EntP::E((*p2).into_any())], comps: &mut [CompP::R(p0)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        10 => { ecs_iter_destroy!(world, |p0: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        11 => { ecs_iter_destroy!(world, |p0: &EntityAny, #[cfg(any())] p1: &CNowhere, p2: &mut CStr, #[cfg(all())] p3: &CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        12 => { ecs_iter_destroy!(world, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        13 => { ecs_iter_destroy!(world, |p0: &mut OneOf<CBox, CStr>, p1: &CByte, p2: &Entity<_>, p3: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any()), EntP::D((*p3).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        14 => { ecs_iter_destroy!(world, |p0: &mut COdd, p1: &CByte, p2: &Entity<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p2).into_any())], comps: &mut [CompP::M(p0), CompP::R(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        15 => { ecs_iter_destroy!(world, |p0: &mut OneOf<CTri, CHuge>, p1: &EntityDirect<_>| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p1).into_any())], comps: &mut [CompP::M(p0)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CInl| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        0 => match kind {
            0 => { ecs_iter!(world, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: Some((1, &mut world.arch_mb)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: Some((1, &mut world.arch_mb)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: Some((1, &mut world.arch_mb)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &Entity<ArchMa>, p1: &mut CBox, p2: &CByte, p3: &mut CInl, p4: &mut COdd| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::M(p4)], other: Some((1, &mut world.arch_mb)) }) }; let _ = r; }); } } }
        },
        1 => match kind {
            0 => { ecs_iter!(world, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((0, &mut world.arch_ma)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((0, &mut world.arch_ma)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((0, &mut world.arch_ma)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &EntityDirect<ArchMe>, p1: &Entity<ArchMe>, p2: &mut CByte| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2)], other: Some((0, &mut world.arch_ma)) }) }; let _ = r; }); } } }
        },
        2 => match kind {
            0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: Some((2, &mut world.arch_mc)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: Some((2, &mut world.arch_mc)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: Some((2, &mut world.arch_mc)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &Entity<_>, p1: &mut CVec, p2: &mut CBig, p3: &CInl, p4: &mut CWord| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4)], other: Some((2, &mut world.arch_mc)) }) }; let _ = r; }); } } }
        },
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(WorldMix::with_capacity(WorldMixCapacity { arch_ma: c[0], arch_mb: c[1], arch_mc: c[2], arch_md: c[3], arch_me: c[4], arch_mf: c[5] })),
    1 => Box::new(WorldMix::new()),
    2 => Box::new(WorldMix::default()),
    _ => Box::new(WorldMix { arch_ma: ArchMa::with_capacity(c[0]), arch_mb: ArchMb::with_capacity(c[1]), arch_mc: ArchMc::with_capacity(c[2]), arch_md: ArchMd::with_capacity(c[3]), arch_me: ArchMe::with_capacity(c[4]), arch_mf: ArchMf::with_capacity(c[5]) }),
} }
