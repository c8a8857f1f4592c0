// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    ecs_name!(WorldWide);
    ecs_archetype!(ArchWp, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap);
    #[archetype_id(41)]
    ecs_archetype!(ArchWq, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was);
    #[archetype_id(40)]
    ecs_archetype!(ArchWr, Wan, Wao, Wap, Waq, War, Was);
    #[archetype_id(9)]
    ecs_archetype!(ArchWs, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd);
}

pub const IDS: &[u8] = &[0, 41, 40, 9];
#[inline] fn aix(id: u8) -> usize { match id { 0 => 0, 41 => 1, 40 => 2, 9 => 3, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "wide", ids: IDS, archs: &[
    ArchMeta { name: "ArchWp", kinds: &[<Waa as Comp>::KIND, <Wab as Comp>::KIND, <Wac as Comp>::KIND, <Wad as Comp>::KIND, <Wae as Comp>::KIND, <Waf as Comp>::KIND, <Wag as Comp>::KIND, <Wah as Comp>::KIND, <Wai as Comp>::KIND, <Waj as Comp>::KIND, <Wak as Comp>::KIND, <Wal as Comp>::KIND, <Wam as Comp>::KIND, <Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND] },
    ArchMeta { name: "ArchWq", kinds: &[<Wai as Comp>::KIND, <Waj as Comp>::KIND, <Wak as Comp>::KIND, <Wal as Comp>::KIND, <Wam as Comp>::KIND, <Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND, <Waq as Comp>::KIND, <War as Comp>::KIND, <Was as Comp>::KIND] },
    ArchMeta { name: "ArchWr", kinds: &[<Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND, <Waq as Comp>::KIND, <War as Comp>::KIND, <Was as Comp>::KIND] },
    ArchMeta { name: "ArchWs", kinds: &[<Waw as Comp>::KIND, <Wax as Comp>::KIND, <Way as Comp>::KIND, <Waz as Comp>::KIND, <Wba as Comp>::KIND, <Wbb as Comp>::KIND, <Wbc as Comp>::KIND, <Wbd as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(13, true), (14, false)]), Some(&[(5, true), (6, false)]), Some(&[(0, true), (1, false)]), None], ents: "E", typed: true, refs: false },
    QuerySpec { binds: &[Some(&[]), Some(&[]), Some(&[]), Some(&[])], ents: "DE", typed: false, refs: true },
    QuerySpec { binds: &[Some(&[(0, true)]), None, None, Some(&[(0, true)])], ents: "ED", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(0, false), (1, true), (2, false), (3, true), (4, false), (5, true), (6, false), (7, true), (8, false), (9, true), (10, false), (11, true), (12, false), (13, true), (14, false), (15, true)]), None, None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, Some(&[(0, true), (1, false), (2, true), (3, false), (4, true), (5, false), (6, true), (7, false), (8, true), (9, false), (10, true)]), None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, Some(&[(7, false), (8, true)]), Some(&[(2, false), (3, true)]), None], ents: "E", typed: false, refs: false },
], sneaky: &[(3, 1)] };

impl ArchComps for ArchWp {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchWpComponents {
        let c = (<Waa as Comp>::make(v[0]), <Wab as Comp>::make(v[1]), <Wac as Comp>::make(v[2]), <Wad as Comp>::make(v[3]), <Wae as Comp>::make(v[4]), <Waf as Comp>::make(v[5]), <Wag as Comp>::make(v[6]), <Wah as Comp>::make(v[7]), <Wai as Comp>::make(v[8]), <Waj as Comp>::make(v[9]), <Wak as Comp>::make(v[10]), <Wal as Comp>::make(v[11]), <Wam as Comp>::make(v[12]), <Wan as Comp>::make(v[13]), <Wao as Comp>::make(v[14]), <Wap as Comp>::make(v[15]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid); ids.push(c.8.get().iid); ids.push(c.9.get().iid); ids.push(c.10.get().iid); ids.push(c.11.get().iid); ids.push(c.12.get().iid); ids.push(c.13.get().iid); ids.push(c.14.get().iid); ids.push(c.15.get().iid);
        ArchWpComponents { waa: c.0, wab: c.1, wac: c.2, wad: c.3, wae: c.4, waf: c.5, wag: c.6, wah: c.7, wai: c.8, waj: c.9, wak: c.10, wal: c.11, wam: c.12, wan: c.13, wao: c.14, wap: c.15 }
    }
    fn unmake(mut c: ArchWpComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.waa.get()); out.push(c.wab.get()); out.push(c.wac.get()); out.push(c.wad.get()); out.push(c.wae.get()); out.push(c.waf.get()); out.push(c.wag.get()); out.push(c.wah.get()); out.push(c.wai.get()); out.push(c.waj.get()); out.push(c.wak.get()); out.push(c.wal.get()); out.push(c.wam.get()); out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); }
            1 => { out.push(c.get::<Waa>().get()); out.push(c.get::<Wab>().get()); out.push(c.get::<Wac>().get()); out.push(c.get::<Wad>().get()); out.push(c.get::<Wae>().get()); out.push(c.get::<Waf>().get()); out.push(c.get::<Wag>().get()); out.push(c.get::<Wah>().get()); out.push(c.get::<Wai>().get()); out.push(c.get::<Waj>().get()); out.push(c.get::<Wak>().get()); out.push(c.get::<Wal>().get()); out.push(c.get::<Wam>().get()); out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); }
            _ => { let _ = c.get_mut::<Waa>().get(); let _ = c.get_mut::<Wab>().get(); let _ = c.get_mut::<Wac>().get(); let _ = c.get_mut::<Wad>().get(); let _ = c.get_mut::<Wae>().get(); let _ = c.get_mut::<Waf>().get(); let _ = c.get_mut::<Wag>().get(); let _ = c.get_mut::<Wah>().get(); let _ = c.get_mut::<Wai>().get(); let _ = c.get_mut::<Waj>().get(); let _ = c.get_mut::<Wak>().get(); let _ = c.get_mut::<Wal>().get(); let _ = c.get_mut::<Wam>().get(); let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let t: (Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchWp> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchWp as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.waa); cb(1, v.wab); cb(2, v.wac); cb(3, v.wad); cb(4, v.wae); cb(5, v.waf); cb(6, v.wag); cb(7, v.wah); cb(8, v.wai); cb(9, v.waj); cb(10, v.wak); cb(11, v.wal); cb(12, v.wam); cb(13, v.wan); cb(14, v.wao); cb(15, v.wap); }
        else { { let s = v.component::<Waa>().get(); let m = v.component_mut::<Waa>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Wab>().get(); let m = v.component_mut::<Wab>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wac>().get(); let m = v.component_mut::<Wac>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Wad>().get(); let m = v.component_mut::<Wad>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Wae>().get(); let m = v.component_mut::<Wae>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Waf>().get(); let m = v.component_mut::<Waf>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wag>().get(); let m = v.component_mut::<Wag>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wah>().get(); let m = v.component_mut::<Wah>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } { let s = v.component::<Wai>().get(); let m = v.component_mut::<Wai>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(8, m); } { let s = v.component::<Waj>().get(); let m = v.component_mut::<Waj>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(9, m); } { let s = v.component::<Wak>().get(); let m = v.component_mut::<Wak>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(10, m); } { let s = v.component::<Wal>().get(); let m = v.component_mut::<Wal>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(11, m); } { let s = v.component::<Wam>().get(); let m = v.component_mut::<Wam>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(12, m); } { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(13, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(14, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(15, m); } }
    }
    fn view_entity(v: &<ArchWp as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchWp as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.waa[i]); cb(1, &mut s.wab[i]); cb(2, &mut s.wac[i]); cb(3, &mut s.wad[i]); cb(4, &mut s.wae[i]); cb(5, &mut s.waf[i]); cb(6, &mut s.wag[i]); cb(7, &mut s.wah[i]); cb(8, &mut s.wai[i]); cb(9, &mut s.waj[i]); cb(10, &mut s.wak[i]); cb(11, &mut s.wal[i]); cb(12, &mut s.wam[i]); cb(13, &mut s.wan[i]); cb(14, &mut s.wao[i]); cb(15, &mut s.wap[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchWp as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.waa.len() != n || s.wab.len() != n || s.wac.len() != n || s.wad.len() != n || s.wae.len() != n || s.waf.len() != n || s.wag.len() != n || s.wah.len() != n || s.wai.len() != n || s.waj.len() != n || s.wak.len() != n || s.wal.len() != n || s.wam.len() != n || s.wan.len() != n || s.wao.len() != n || s.wap.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Waa>(self, form, cb), 1 => slice_form::<Self, Wab>(self, form, cb), 2 => slice_form::<Self, Wac>(self, form, cb), 3 => slice_form::<Self, Wad>(self, form, cb), 4 => slice_form::<Self, Wae>(self, form, cb), 5 => slice_form::<Self, Waf>(self, form, cb), 6 => slice_form::<Self, Wag>(self, form, cb), 7 => slice_form::<Self, Wah>(self, form, cb), 8 => slice_form::<Self, Wai>(self, form, cb), 9 => slice_form::<Self, Waj>(self, form, cb), 10 => slice_form::<Self, Wak>(self, form, cb), 11 => slice_form::<Self, Wal>(self, form, cb), 12 => slice_form::<Self, Wam>(self, form, cb), 13 => slice_form::<Self, Wan>(self, form, cb), 14 => slice_form::<Self, Wao>(self, form, cb), 15 => slice_form::<Self, Wap>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Waa>(self, mutable), 1 => mk_guard_slice::<Self, Wab>(self, mutable), 2 => mk_guard_slice::<Self, Wac>(self, mutable), 3 => mk_guard_slice::<Self, Wad>(self, mutable), 4 => mk_guard_slice::<Self, Wae>(self, mutable), 5 => mk_guard_slice::<Self, Waf>(self, mutable), 6 => mk_guard_slice::<Self, Wag>(self, mutable), 7 => mk_guard_slice::<Self, Wah>(self, mutable), 8 => mk_guard_slice::<Self, Wai>(self, mutable), 9 => mk_guard_slice::<Self, Waj>(self, mutable), 10 => mk_guard_slice::<Self, Wak>(self, mutable), 11 => mk_guard_slice::<Self, Wal>(self, mutable), 12 => mk_guard_slice::<Self, Wam>(self, mutable), 13 => mk_guard_slice::<Self, Wan>(self, mutable), 14 => mk_guard_slice::<Self, Wao>(self, mutable), 15 => mk_guard_slice::<Self, Wap>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchWp as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Waa>())) } else { Box::new(GR(b.component::<Waa>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Wab>())) } else { Box::new(GR(b.component::<Wab>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wac>())) } else { Box::new(GR(b.component::<Wac>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Wad>())) } else { Box::new(GR(b.component::<Wad>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Wae>())) } else { Box::new(GR(b.component::<Wae>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Waf>())) } else { Box::new(GR(b.component::<Waf>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wag>())) } else { Box::new(GR(b.component::<Wag>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wah>())) } else { Box::new(GR(b.component::<Wah>())) }, 8 => if mutable { Box::new(GM(b.component_mut::<Wai>())) } else { Box::new(GR(b.component::<Wai>())) }, 9 => if mutable { Box::new(GM(b.component_mut::<Waj>())) } else { Box::new(GR(b.component::<Waj>())) }, 10 => if mutable { Box::new(GM(b.component_mut::<Wak>())) } else { Box::new(GR(b.component::<Wak>())) }, 11 => if mutable { Box::new(GM(b.component_mut::<Wal>())) } else { Box::new(GR(b.component::<Wal>())) }, 12 => if mutable { Box::new(GM(b.component_mut::<Wam>())) } else { Box::new(GR(b.component::<Wam>())) }, 13 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 14 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 15 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchWp { const NCOLS: usize = 16; }
impl From<PanicInto<ArchWp>> for ArchWpComponents { fn from(p: PanicInto<ArchWp>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchWp as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchWq {
    const IDX: usize = 1;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchWqComponents {
        let c = (<Wai as Comp>::make(v[0]), <Waj as Comp>::make(v[1]), <Wak as Comp>::make(v[2]), <Wal as Comp>::make(v[3]), <Wam as Comp>::make(v[4]), <Wan as Comp>::make(v[5]), <Wao as Comp>::make(v[6]), <Wap as Comp>::make(v[7]), <Waq as Comp>::make(v[8]), <War as Comp>::make(v[9]), <Was as Comp>::make(v[10]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid); ids.push(c.8.get().iid); ids.push(c.9.get().iid); ids.push(c.10.get().iid);
        ArchWqComponents { wai: c.0, waj: c.1, wak: c.2, wal: c.3, wam: c.4, wan: c.5, wao: c.6, wap: c.7, waq: c.8, war: c.9, was: c.10 }
    }
    fn unmake(mut c: ArchWqComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.wai.get()); out.push(c.waj.get()); out.push(c.wak.get()); out.push(c.wal.get()); out.push(c.wam.get()); out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); out.push(c.waq.get()); out.push(c.war.get()); out.push(c.was.get()); }
            1 => { out.push(c.get::<Wai>().get()); out.push(c.get::<Waj>().get()); out.push(c.get::<Wak>().get()); out.push(c.get::<Wal>().get()); out.push(c.get::<Wam>().get()); out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); out.push(c.get::<Waq>().get()); out.push(c.get::<War>().get()); out.push(c.get::<Was>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); }
            _ => { let _ = c.get_mut::<Wai>().get(); let _ = c.get_mut::<Waj>().get(); let _ = c.get_mut::<Wak>().get(); let _ = c.get_mut::<Wal>().get(); let _ = c.get_mut::<Wam>().get(); let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let _ = c.get_mut::<Waq>().get(); let _ = c.get_mut::<War>().get(); let _ = c.get_mut::<Was>().get(); let t: (Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchWq> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchWq as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.wai); cb(1, v.waj); cb(2, v.wak); cb(3, v.wal); cb(4, v.wam); cb(5, v.wan); cb(6, v.wao); cb(7, v.wap); cb(8, v.waq); cb(9, v.war); cb(10, v.was); }
        else { { let s = v.component::<Wai>().get(); let m = v.component_mut::<Wai>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Waj>().get(); let m = v.component_mut::<Waj>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wak>().get(); let m = v.component_mut::<Wak>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Wal>().get(); let m = v.component_mut::<Wal>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Wam>().get(); let m = v.component_mut::<Wam>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } { let s = v.component::<Waq>().get(); let m = v.component_mut::<Waq>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(8, m); } { let s = v.component::<War>().get(); let m = v.component_mut::<War>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(9, m); } { let s = v.component::<Was>().get(); let m = v.component_mut::<Was>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(10, m); } }
    }
    fn view_entity(v: &<ArchWq as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchWq as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.wai[i]); cb(1, &mut s.waj[i]); cb(2, &mut s.wak[i]); cb(3, &mut s.wal[i]); cb(4, &mut s.wam[i]); cb(5, &mut s.wan[i]); cb(6, &mut s.wao[i]); cb(7, &mut s.wap[i]); cb(8, &mut s.waq[i]); cb(9, &mut s.war[i]); cb(10, &mut s.was[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchWq as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.wai.len() != n || s.waj.len() != n || s.wak.len() != n || s.wal.len() != n || s.wam.len() != n || s.wan.len() != n || s.wao.len() != n || s.wap.len() != n || s.waq.len() != n || s.war.len() != n || s.was.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Wai>(self, form, cb), 1 => slice_form::<Self, Waj>(self, form, cb), 2 => slice_form::<Self, Wak>(self, form, cb), 3 => slice_form::<Self, Wal>(self, form, cb), 4 => slice_form::<Self, Wam>(self, form, cb), 5 => slice_form::<Self, Wan>(self, form, cb), 6 => slice_form::<Self, Wao>(self, form, cb), 7 => slice_form::<Self, Wap>(self, form, cb), 8 => slice_form::<Self, Waq>(self, form, cb), 9 => slice_form::<Self, War>(self, form, cb), 10 => slice_form::<Self, Was>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Wai>(self, mutable), 1 => mk_guard_slice::<Self, Waj>(self, mutable), 2 => mk_guard_slice::<Self, Wak>(self, mutable), 3 => mk_guard_slice::<Self, Wal>(self, mutable), 4 => mk_guard_slice::<Self, Wam>(self, mutable), 5 => mk_guard_slice::<Self, Wan>(self, mutable), 6 => mk_guard_slice::<Self, Wao>(self, mutable), 7 => mk_guard_slice::<Self, Wap>(self, mutable), 8 => mk_guard_slice::<Self, Waq>(self, mutable), 9 => mk_guard_slice::<Self, War>(self, mutable), 10 => mk_guard_slice::<Self, Was>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchWq as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Wai>())) } else { Box::new(GR(b.component::<Wai>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Waj>())) } else { Box::new(GR(b.component::<Waj>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wak>())) } else { Box::new(GR(b.component::<Wak>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Wal>())) } else { Box::new(GR(b.component::<Wal>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Wam>())) } else { Box::new(GR(b.component::<Wam>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, 8 => if mutable { Box::new(GM(b.component_mut::<Waq>())) } else { Box::new(GR(b.component::<Waq>())) }, 9 => if mutable { Box::new(GM(b.component_mut::<War>())) } else { Box::new(GR(b.component::<War>())) }, 10 => if mutable { Box::new(GM(b.component_mut::<Was>())) } else { Box::new(GR(b.component::<Was>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchWq { const NCOLS: usize = 11; }
impl From<PanicInto<ArchWq>> for ArchWqComponents { fn from(p: PanicInto<ArchWq>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchWq as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchWr {
    const IDX: usize = 2;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchWrComponents {
        let c = (<Wan as Comp>::make(v[0]), <Wao as Comp>::make(v[1]), <Wap as Comp>::make(v[2]), <Waq as Comp>::make(v[3]), <War as Comp>::make(v[4]), <Was as Comp>::make(v[5]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid);
        ArchWrComponents { wan: c.0, wao: c.1, wap: c.2, waq: c.3, war: c.4, was: c.5 }
    }
    fn unmake(mut c: ArchWrComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); out.push(c.waq.get()); out.push(c.war.get()); out.push(c.was.get()); }
            1 => { out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); out.push(c.get::<Waq>().get()); out.push(c.get::<War>().get()); out.push(c.get::<Was>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); }
            _ => { let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let _ = c.get_mut::<Waq>().get(); let _ = c.get_mut::<War>().get(); let _ = c.get_mut::<Was>().get(); let t: (Wan, Wao, Wap, Waq, War, Was,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchWr> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Wan, Wao, Wap, Waq, War, Was,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchWr as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.wan); cb(1, v.wao); cb(2, v.wap); cb(3, v.waq); cb(4, v.war); cb(5, v.was); }
        else { { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Waq>().get(); let m = v.component_mut::<Waq>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<War>().get(); let m = v.component_mut::<War>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Was>().get(); let m = v.component_mut::<Was>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } }
    }
    fn view_entity(v: &<ArchWr as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchWr as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.wan[i]); cb(1, &mut s.wao[i]); cb(2, &mut s.wap[i]); cb(3, &mut s.waq[i]); cb(4, &mut s.war[i]); cb(5, &mut s.was[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchWr as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.wan.len() != n || s.wao.len() != n || s.wap.len() != n || s.waq.len() != n || s.war.len() != n || s.was.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Wan>(self, form, cb), 1 => slice_form::<Self, Wao>(self, form, cb), 2 => slice_form::<Self, Wap>(self, form, cb), 3 => slice_form::<Self, Waq>(self, form, cb), 4 => slice_form::<Self, War>(self, form, cb), 5 => slice_form::<Self, Was>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Wan>(self, mutable), 1 => mk_guard_slice::<Self, Wao>(self, mutable), 2 => mk_guard_slice::<Self, Wap>(self, mutable), 3 => mk_guard_slice::<Self, Waq>(self, mutable), 4 => mk_guard_slice::<Self, War>(self, mutable), 5 => mk_guard_slice::<Self, Was>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchWr as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Waq>())) } else { Box::new(GR(b.component::<Waq>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<War>())) } else { Box::new(GR(b.component::<War>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Was>())) } else { Box::new(GR(b.component::<Was>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchWr { const NCOLS: usize = 6; }
impl From<PanicInto<ArchWr>> for ArchWrComponents { fn from(p: PanicInto<ArchWr>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchWr as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchWs {
    const IDX: usize = 3;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchWsComponents {
        let c = (<Waw as Comp>::make(v[0]), <Wax as Comp>::make(v[1]), <Way as Comp>::make(v[2]), <Waz as Comp>::make(v[3]), <Wba as Comp>::make(v[4]), <Wbb as Comp>::make(v[5]), <Wbc as Comp>::make(v[6]), <Wbd as Comp>::make(v[7]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid);
        ArchWsComponents { waw: c.0, wax: c.1, way: c.2, waz: c.3, wba: c.4, wbb: c.5, wbc: c.6, wbd: c.7 }
    }
    fn unmake(mut c: ArchWsComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.waw.get()); out.push(c.wax.get()); out.push(c.way.get()); out.push(c.waz.get()); out.push(c.wba.get()); out.push(c.wbb.get()); out.push(c.wbc.get()); out.push(c.wbd.get()); }
            1 => { out.push(c.get::<Waw>().get()); out.push(c.get::<Wax>().get()); out.push(c.get::<Way>().get()); out.push(c.get::<Waz>().get()); out.push(c.get::<Wba>().get()); out.push(c.get::<Wbb>().get()); out.push(c.get::<Wbc>().get()); out.push(c.get::<Wbd>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); }
            _ => { let _ = c.get_mut::<Waw>().get(); let _ = c.get_mut::<Wax>().get(); let _ = c.get_mut::<Way>().get(); let _ = c.get_mut::<Waz>().get(); let _ = c.get_mut::<Wba>().get(); let _ = c.get_mut::<Wbb>().get(); let _ = c.get_mut::<Wbc>().get(); let _ = c.get_mut::<Wbd>().get(); let t: (Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchWs> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchWs as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.waw); cb(1, v.wax); cb(2, v.way); cb(3, v.waz); cb(4, v.wba); cb(5, v.wbb); cb(6, v.wbc); cb(7, v.wbd); }
        else { { let s = v.component::<Waw>().get(); let m = v.component_mut::<Waw>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Wax>().get(); let m = v.component_mut::<Wax>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Way>().get(); let m = v.component_mut::<Way>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Waz>().get(); let m = v.component_mut::<Waz>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Wba>().get(); let m = v.component_mut::<Wba>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Wbb>().get(); let m = v.component_mut::<Wbb>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wbc>().get(); let m = v.component_mut::<Wbc>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wbd>().get(); let m = v.component_mut::<Wbd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } }
    }
    fn view_entity(v: &<ArchWs as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchWs as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.waw[i]); cb(1, &mut s.wax[i]); cb(2, &mut s.way[i]); cb(3, &mut s.waz[i]); cb(4, &mut s.wba[i]); cb(5, &mut s.wbb[i]); cb(6, &mut s.wbc[i]); cb(7, &mut s.wbd[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchWs as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.waw.len() != n || s.wax.len() != n || s.way.len() != n || s.waz.len() != n || s.wba.len() != n || s.wbb.len() != n || s.wbc.len() != n || s.wbd.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Waw>(self, form, cb), 1 => slice_form::<Self, Wax>(self, form, cb), 2 => slice_form::<Self, Way>(self, form, cb), 3 => slice_form::<Self, Waz>(self, form, cb), 4 => slice_form::<Self, Wba>(self, form, cb), 5 => slice_form::<Self, Wbb>(self, form, cb), 6 => slice_form::<Self, Wbc>(self, form, cb), 7 => slice_form::<Self, Wbd>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Waw>(self, mutable), 1 => mk_guard_slice::<Self, Wax>(self, mutable), 2 => mk_guard_slice::<Self, Way>(self, mutable), 3 => mk_guard_slice::<Self, Waz>(self, mutable), 4 => mk_guard_slice::<Self, Wba>(self, mutable), 5 => mk_guard_slice::<Self, Wbb>(self, mutable), 6 => mk_guard_slice::<Self, Wbc>(self, mutable), 7 => mk_guard_slice::<Self, Wbd>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchWs as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Waw>())) } else { Box::new(GR(b.component::<Waw>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Wax>())) } else { Box::new(GR(b.component::<Wax>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Way>())) } else { Box::new(GR(b.component::<Way>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Waz>())) } else { Box::new(GR(b.component::<Waz>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Wba>())) } else { Box::new(GR(b.component::<Wba>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Wbb>())) } else { Box::new(GR(b.component::<Wbb>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wbc>())) } else { Box::new(GR(b.component::<Wbc>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wbd>())) } else { Box::new(GR(b.component::<Wbd>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchWs { const NCOLS: usize = 8; }
impl From<PanicInto<ArchWs>> for ArchWsComponents { fn from(p: PanicInto<ArchWs>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchWs as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for WorldWide {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = WorldWide::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(WorldWide { arch_ws: self.arch_ws.clone(), arch_wr: self.arch_wr.clone(), arch_wq: self.arch_wq.clone(), arch_wp: self.arch_wp.clone() }),
        4 => { let mut x = WorldWide::default(); x.arch_wp.clone_from(&self.arch_wp); x.arch_wq.clone_from(&self.arch_wq); x.arch_wr.clone_from(&self.arch_wr); x.arch_ws.clone_from(&self.arch_ws); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = WorldWide::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_wp, &mut y.arch_wp); std::mem::swap(&mut x.arch_wq, &mut y.arch_wq); std::mem::swap(&mut x.arch_wr, &mut y.arch_wr); std::mem::swap(&mut x.arch_ws, &mut y.arch_ws); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<WorldWide>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_wp.clone_from(&of.arch_wp); self.arch_wq.clone_from(&of.arch_wq); self.arch_wr.clone_from(&of.arch_wr); self.arch_ws.clone_from(&of.arch_ws); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_wp, 1 => &self.arch_wq, 2 => &self.arch_wr, 3 => &self.arch_ws, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_wp, 1 => &mut self.arch_wq, 2 => &mut self.arch_wr, 3 => &mut self.arch_ws, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchWp, 1 ArchWq, 2 ArchWr, 3 ArchWs], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchWp, 1 ArchWq, 2 ArchWr, 3 ArchWs], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchWp>(self, k, form, out),
        Some(1) => w_destroy_typed::<Self, ArchWq>(self, k, form, out),
        Some(2) => w_destroy_typed::<Self, ArchWr>(self, k, form, out),
        Some(3) => w_destroy_typed::<Self, ArchWs>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchWp>(self, k, form, cb),
        Some(1) => w_view_typed::<Self, ArchWq>(self, k, form, cb),
        Some(2) => w_view_typed::<Self, ArchWr>(self, k, form, cb),
        Some(3) => w_view_typed::<Self, ArchWs>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchWp>(self, k, form, cb),
        Some(1) => w_borrow_typed::<Self, ArchWq>(self, k, form, cb),
        Some(2) => w_borrow_typed::<Self, ArchWr>(self, k, form, cb),
        Some(3) => w_borrow_typed::<Self, ArchWs>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchWp>(self, v, ids, form), 1 => w_create_typed::<Self, ArchWq>(self, v, ids, form), 2 => w_create_typed::<Self, ArchWr>(self, v, ids, form), 3 => w_create_typed::<Self, ArchWs>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchWp>(self, v, ids, form, out), 1 => w_create_wc_typed::<Self, ArchWq>(self, v, ids, form, out), 2 => w_create_wc_typed::<Self, ArchWr>(self, v, ids, form, out), 3 => w_create_wc_typed::<Self, ArchWs>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchWp>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchWp>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchWq>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchWq>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchWr>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchWr>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchWs>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchWs>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchWp>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchWp>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchWq>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchWq>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchWr>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchWr>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::E(h), _) => { let h = ke::<ArchWs>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(3), EntP::D(h), _) => { let h = kd::<ArchWs>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        5 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter!(world, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter!(world, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter_borrow!(world, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        5 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &EntityAny, p1: &mut OneOf<Waa, Waw>, p2: &EntityDirectAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any()), EntP::D((*p2).into_any())], comps: &mut [CompP::M(p1)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        4 => { ecs_iter_destroy!(world, |p0: &Entity<ArchWq>, p1: &mut Wai, p2: &Waj, p3: &mut Wak, p4: &Wal, p5: &mut Wam, p6: &Wan, p7: &mut Wao, p8: &Wap, p9: &mut Waq, p10: &War, p11: &mut Was| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        5 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &Wap, p2: &mut Waq| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        0 => match kind {
            0 => { ecs_iter!(world, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: Some((1, &mut world.arch_wq)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: Some((1, &mut world.arch_wq)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: Some((1, &mut world.arch_wq)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &Entity<ArchWp>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16)], other: Some((1, &mut world.arch_wq)) }) }; let _ = r; }); } } }
        },
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(WorldWide::with_capacity(WorldWideCapacity { arch_wp: c[0], arch_wq: c[1], arch_wr: c[2], arch_ws: c[3] })),
    1 => Box::new(WorldWide::new()),
    2 => Box::new(WorldWide::default()),
    _ => Box::new(WorldWide { arch_wp: ArchWp::with_capacity(c[0]), arch_wq: ArchWq::with_capacity(c[1]), arch_wr: ArchWr::with_capacity(c[2]), arch_ws: ArchWs::with_capacity(c[3]) }),
} }
