// @generated by gen/gen.py -- do not edit.
#![allow(unused, clippy::all)]
use gecs::prelude::*;
use gecs::traits::{Components as _, Borrow as _, View as _};
use crate::comp::*;
use crate::api::*;
use std::cell::{Ref, RefMut};

ecs_world! {
    ecs_name!(WorldWideX);
    ecs_archetype!(ArchXa, Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf);
    ecs_archetype!(ArchXb, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav);
    ecs_archetype!(ArchXc, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf);
}

pub const IDS: &[u8] = &[0, 1, 2];
#[inline] fn aix(id: u8) -> usize { match id { 0 => 0, 1 => 1, 2 => 2, _ => usize::MAX } }
pub static META: WorldMeta = WorldMeta { name: "widex", ids: IDS, archs: &[
    ArchMeta { name: "ArchXa", kinds: &[<Waa as Comp>::KIND, <Wab as Comp>::KIND, <Wac as Comp>::KIND, <Wad as Comp>::KIND, <Wae as Comp>::KIND, <Waf as Comp>::KIND, <Wag as Comp>::KIND, <Wah as Comp>::KIND, <Wai as Comp>::KIND, <Waj as Comp>::KIND, <Wak as Comp>::KIND, <Wal as Comp>::KIND, <Wam as Comp>::KIND, <Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND, <Waq as Comp>::KIND, <War as Comp>::KIND, <Was as Comp>::KIND, <Wat as Comp>::KIND, <Wau as Comp>::KIND, <Wav as Comp>::KIND, <Waw as Comp>::KIND, <Wax as Comp>::KIND, <Way as Comp>::KIND, <Waz as Comp>::KIND, <Wba as Comp>::KIND, <Wbb as Comp>::KIND, <Wbc as Comp>::KIND, <Wbd as Comp>::KIND, <Wbe as Comp>::KIND, <Wbf as Comp>::KIND] },
    ArchMeta { name: "ArchXb", kinds: &[<Waf as Comp>::KIND, <Wag as Comp>::KIND, <Wah as Comp>::KIND, <Wai as Comp>::KIND, <Waj as Comp>::KIND, <Wak as Comp>::KIND, <Wal as Comp>::KIND, <Wam as Comp>::KIND, <Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND, <Waq as Comp>::KIND, <War as Comp>::KIND, <Was as Comp>::KIND, <Wat as Comp>::KIND, <Wau as Comp>::KIND, <Wav as Comp>::KIND] },
    ArchMeta { name: "ArchXc", kinds: &[<Wai as Comp>::KIND, <Waj as Comp>::KIND, <Wak as Comp>::KIND, <Wal as Comp>::KIND, <Wam as Comp>::KIND, <Wan as Comp>::KIND, <Wao as Comp>::KIND, <Wap as Comp>::KIND, <Waq as Comp>::KIND, <War as Comp>::KIND, <Was as Comp>::KIND, <Wat as Comp>::KIND, <Wau as Comp>::KIND, <Wav as Comp>::KIND, <Waw as Comp>::KIND, <Wax as Comp>::KIND, <Way as Comp>::KIND, <Waz as Comp>::KIND, <Wba as Comp>::KIND, <Wbb as Comp>::KIND, <Wbc as Comp>::KIND, <Wbd as Comp>::KIND, <Wbe as Comp>::KIND, <Wbf as Comp>::KIND] },
], queries: &[
    QuerySpec { binds: &[Some(&[(13, true), (14, false)]), Some(&[(8, true), (9, false)]), Some(&[(5, true), (6, false)])], ents: "E", typed: true, refs: false },
    QuerySpec { binds: &[Some(&[]), Some(&[]), Some(&[])], ents: "DE", typed: false, refs: true },
    QuerySpec { binds: &[Some(&[(0, false), (1, true), (2, false), (3, true), (4, false), (5, true), (6, false), (7, true), (8, false), (9, true), (10, false), (11, true), (12, false), (13, true), (14, false), (15, true), (16, false), (17, true), (18, false), (19, true), (20, false), (21, true), (22, false), (23, true), (24, false), (25, true), (26, false), (27, true), (28, false), (29, true), (30, false), (31, true)]), None, None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[None, Some(&[(0, true), (1, false), (2, true), (3, false), (4, true), (5, false), (6, true), (7, false), (8, true), (9, false), (10, true), (11, false), (12, true), (13, false), (14, true), (15, false), (16, true)]), None], ents: "E", typed: false, refs: false },
    QuerySpec { binds: &[Some(&[(31, true), (25, false)]), None, Some(&[(23, true), (17, false)])], ents: "DE", typed: false, refs: false },
], sneaky: &[(2, 1)] };

impl ArchComps for ArchXa {
    const IDX: usize = 0;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchXaComponents {
        let c = (<Waa as Comp>::make(v[0]), <Wab as Comp>::make(v[1]), <Wac as Comp>::make(v[2]), <Wad as Comp>::make(v[3]), <Wae as Comp>::make(v[4]), <Waf as Comp>::make(v[5]), <Wag as Comp>::make(v[6]), <Wah as Comp>::make(v[7]), <Wai as Comp>::make(v[8]), <Waj as Comp>::make(v[9]), <Wak as Comp>::make(v[10]), <Wal as Comp>::make(v[11]), <Wam as Comp>::make(v[12]), <Wan as Comp>::make(v[13]), <Wao as Comp>::make(v[14]), <Wap as Comp>::make(v[15]), <Waq as Comp>::make(v[16]), <War as Comp>::make(v[17]), <Was as Comp>::make(v[18]), <Wat as Comp>::make(v[19]), <Wau as Comp>::make(v[20]), <Wav as Comp>::make(v[21]), <Waw as Comp>::make(v[22]), <Wax as Comp>::make(v[23]), <Way as Comp>::make(v[24]), <Waz as Comp>::make(v[25]), <Wba as Comp>::make(v[26]), <Wbb as Comp>::make(v[27]), <Wbc as Comp>::make(v[28]), <Wbd as Comp>::make(v[29]), <Wbe as Comp>::make(v[30]), <Wbf as Comp>::make(v[31]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid); ids.push(c.8.get().iid); ids.push(c.9.get().iid); ids.push(c.10.get().iid); ids.push(c.11.get().iid); ids.push(c.12.get().iid); ids.push(c.13.get().iid); ids.push(c.14.get().iid); ids.push(c.15.get().iid); ids.push(c.16.get().iid); ids.push(c.17.get().iid); ids.push(c.18.get().iid); ids.push(c.19.get().iid); ids.push(c.20.get().iid); ids.push(c.21.get().iid); ids.push(c.22.get().iid); ids.push(c.23.get().iid); ids.push(c.24.get().iid); ids.push(c.25.get().iid); ids.push(c.26.get().iid); ids.push(c.27.get().iid); ids.push(c.28.get().iid); ids.push(c.29.get().iid); ids.push(c.30.get().iid); ids.push(c.31.get().iid);
        ArchXaComponents { waa: c.0, wab: c.1, wac: c.2, wad: c.3, wae: c.4, waf: c.5, wag: c.6, wah: c.7, wai: c.8, waj: c.9, wak: c.10, wal: c.11, wam: c.12, wan: c.13, wao: c.14, wap: c.15, waq: c.16, war: c.17, was: c.18, wat: c.19, wau: c.20, wav: c.21, waw: c.22, wax: c.23, way: c.24, waz: c.25, wba: c.26, wbb: c.27, wbc: c.28, wbd: c.29, wbe: c.30, wbf: c.31 }
    }
    fn unmake(mut c: ArchXaComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.waa.get()); out.push(c.wab.get()); out.push(c.wac.get()); out.push(c.wad.get()); out.push(c.wae.get()); out.push(c.waf.get()); out.push(c.wag.get()); out.push(c.wah.get()); out.push(c.wai.get()); out.push(c.waj.get()); out.push(c.wak.get()); out.push(c.wal.get()); out.push(c.wam.get()); out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); out.push(c.waq.get()); out.push(c.war.get()); out.push(c.was.get()); out.push(c.wat.get()); out.push(c.wau.get()); out.push(c.wav.get()); out.push(c.waw.get()); out.push(c.wax.get()); out.push(c.way.get()); out.push(c.waz.get()); out.push(c.wba.get()); out.push(c.wbb.get()); out.push(c.wbc.get()); out.push(c.wbd.get()); out.push(c.wbe.get()); out.push(c.wbf.get()); }
            1 => { out.push(c.get::<Waa>().get()); out.push(c.get::<Wab>().get()); out.push(c.get::<Wac>().get()); out.push(c.get::<Wad>().get()); out.push(c.get::<Wae>().get()); out.push(c.get::<Waf>().get()); out.push(c.get::<Wag>().get()); out.push(c.get::<Wah>().get()); out.push(c.get::<Wai>().get()); out.push(c.get::<Waj>().get()); out.push(c.get::<Wak>().get()); out.push(c.get::<Wal>().get()); out.push(c.get::<Wam>().get()); out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); out.push(c.get::<Waq>().get()); out.push(c.get::<War>().get()); out.push(c.get::<Was>().get()); out.push(c.get::<Wat>().get()); out.push(c.get::<Wau>().get()); out.push(c.get::<Wav>().get()); out.push(c.get::<Waw>().get()); out.push(c.get::<Wax>().get()); out.push(c.get::<Way>().get()); out.push(c.get::<Waz>().get()); out.push(c.get::<Wba>().get()); out.push(c.get::<Wbb>().get()); out.push(c.get::<Wbc>().get()); out.push(c.get::<Wbd>().get()); out.push(c.get::<Wbe>().get()); out.push(c.get::<Wbf>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); out.push(t.17.get()); out.push(t.18.get()); out.push(t.19.get()); out.push(t.20.get()); out.push(t.21.get()); out.push(t.22.get()); out.push(t.23.get()); out.push(t.24.get()); out.push(t.25.get()); out.push(t.26.get()); out.push(t.27.get()); out.push(t.28.get()); out.push(t.29.get()); out.push(t.30.get()); out.push(t.31.get()); }
            _ => { let _ = c.get_mut::<Waa>().get(); let _ = c.get_mut::<Wab>().get(); let _ = c.get_mut::<Wac>().get(); let _ = c.get_mut::<Wad>().get(); let _ = c.get_mut::<Wae>().get(); let _ = c.get_mut::<Waf>().get(); let _ = c.get_mut::<Wag>().get(); let _ = c.get_mut::<Wah>().get(); let _ = c.get_mut::<Wai>().get(); let _ = c.get_mut::<Waj>().get(); let _ = c.get_mut::<Wak>().get(); let _ = c.get_mut::<Wal>().get(); let _ = c.get_mut::<Wam>().get(); let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let _ = c.get_mut::<Waq>().get(); let _ = c.get_mut::<War>().get(); let _ = c.get_mut::<Was>().get(); let _ = c.get_mut::<Wat>().get(); let _ = c.get_mut::<Wau>().get(); let _ = c.get_mut::<Wav>().get(); let _ = c.get_mut::<Waw>().get(); let _ = c.get_mut::<Wax>().get(); let _ = c.get_mut::<Way>().get(); let _ = c.get_mut::<Waz>().get(); let _ = c.get_mut::<Wba>().get(); let _ = c.get_mut::<Wbb>().get(); let _ = c.get_mut::<Wbc>().get(); let _ = c.get_mut::<Wbd>().get(); let _ = c.get_mut::<Wbe>().get(); let _ = c.get_mut::<Wbf>().get(); let t: (Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); out.push(t.17.get()); out.push(t.18.get()); out.push(t.19.get()); out.push(t.20.get()); out.push(t.21.get()); out.push(t.22.get()); out.push(t.23.get()); out.push(t.24.get()); out.push(t.25.get()); out.push(t.26.get()); out.push(t.27.get()); out.push(t.28.get()); out.push(t.29.get()); out.push(t.30.get()); out.push(t.31.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchXa> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Waa, Wab, Wac, Wad, Wae, Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchXa as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.waa); cb(1, v.wab); cb(2, v.wac); cb(3, v.wad); cb(4, v.wae); cb(5, v.waf); cb(6, v.wag); cb(7, v.wah); cb(8, v.wai); cb(9, v.waj); cb(10, v.wak); cb(11, v.wal); cb(12, v.wam); cb(13, v.wan); cb(14, v.wao); cb(15, v.wap); cb(16, v.waq); cb(17, v.war); cb(18, v.was); cb(19, v.wat); cb(20, v.wau); cb(21, v.wav); cb(22, v.waw); cb(23, v.wax); cb(24, v.way); cb(25, v.waz); cb(26, v.wba); cb(27, v.wbb); cb(28, v.wbc); cb(29, v.wbd); cb(30, v.wbe); cb(31, v.wbf); }
        else { { let s = v.component::<Waa>().get(); let m = v.component_mut::<Waa>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Wab>().get(); let m = v.component_mut::<Wab>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wac>().get(); let m = v.component_mut::<Wac>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Wad>().get(); let m = v.component_mut::<Wad>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Wae>().get(); let m = v.component_mut::<Wae>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Waf>().get(); let m = v.component_mut::<Waf>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wag>().get(); let m = v.component_mut::<Wag>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wah>().get(); let m = v.component_mut::<Wah>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } { let s = v.component::<Wai>().get(); let m = v.component_mut::<Wai>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(8, m); } { let s = v.component::<Waj>().get(); let m = v.component_mut::<Waj>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(9, m); } { let s = v.component::<Wak>().get(); let m = v.component_mut::<Wak>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(10, m); } { let s = v.component::<Wal>().get(); let m = v.component_mut::<Wal>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(11, m); } { let s = v.component::<Wam>().get(); let m = v.component_mut::<Wam>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(12, m); } { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(13, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(14, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(15, m); } { let s = v.component::<Waq>().get(); let m = v.component_mut::<Waq>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(16, m); } { let s = v.component::<War>().get(); let m = v.component_mut::<War>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(17, m); } { let s = v.component::<Was>().get(); let m = v.component_mut::<Was>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(18, m); } { let s = v.component::<Wat>().get(); let m = v.component_mut::<Wat>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(19, m); } { let s = v.component::<Wau>().get(); let m = v.component_mut::<Wau>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(20, m); } { let s = v.component::<Wav>().get(); let m = v.component_mut::<Wav>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(21, m); } { let s = v.component::<Waw>().get(); let m = v.component_mut::<Waw>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(22, m); } { let s = v.component::<Wax>().get(); let m = v.component_mut::<Wax>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(23, m); } { let s = v.component::<Way>().get(); let m = v.component_mut::<Way>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(24, m); } { let s = v.component::<Waz>().get(); let m = v.component_mut::<Waz>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(25, m); } { let s = v.component::<Wba>().get(); let m = v.component_mut::<Wba>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(26, m); } { let s = v.component::<Wbb>().get(); let m = v.component_mut::<Wbb>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(27, m); } { let s = v.component::<Wbc>().get(); let m = v.component_mut::<Wbc>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(28, m); } { let s = v.component::<Wbd>().get(); let m = v.component_mut::<Wbd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(29, m); } { let s = v.component::<Wbe>().get(); let m = v.component_mut::<Wbe>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(30, m); } { let s = v.component::<Wbf>().get(); let m = v.component_mut::<Wbf>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(31, m); } }
    }
    fn view_entity(v: &<ArchXa as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchXa as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.waa[i]); cb(1, &mut s.wab[i]); cb(2, &mut s.wac[i]); cb(3, &mut s.wad[i]); cb(4, &mut s.wae[i]); cb(5, &mut s.waf[i]); cb(6, &mut s.wag[i]); cb(7, &mut s.wah[i]); cb(8, &mut s.wai[i]); cb(9, &mut s.waj[i]); cb(10, &mut s.wak[i]); cb(11, &mut s.wal[i]); cb(12, &mut s.wam[i]); cb(13, &mut s.wan[i]); cb(14, &mut s.wao[i]); cb(15, &mut s.wap[i]); cb(16, &mut s.waq[i]); cb(17, &mut s.war[i]); cb(18, &mut s.was[i]); cb(19, &mut s.wat[i]); cb(20, &mut s.wau[i]); cb(21, &mut s.wav[i]); cb(22, &mut s.waw[i]); cb(23, &mut s.wax[i]); cb(24, &mut s.way[i]); cb(25, &mut s.waz[i]); cb(26, &mut s.wba[i]); cb(27, &mut s.wbb[i]); cb(28, &mut s.wbc[i]); cb(29, &mut s.wbd[i]); cb(30, &mut s.wbe[i]); cb(31, &mut s.wbf[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchXa as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.waa.len() != n || s.wab.len() != n || s.wac.len() != n || s.wad.len() != n || s.wae.len() != n || s.waf.len() != n || s.wag.len() != n || s.wah.len() != n || s.wai.len() != n || s.waj.len() != n || s.wak.len() != n || s.wal.len() != n || s.wam.len() != n || s.wan.len() != n || s.wao.len() != n || s.wap.len() != n || s.waq.len() != n || s.war.len() != n || s.was.len() != n || s.wat.len() != n || s.wau.len() != n || s.wav.len() != n || s.waw.len() != n || s.wax.len() != n || s.way.len() != n || s.waz.len() != n || s.wba.len() != n || s.wbb.len() != n || s.wbc.len() != n || s.wbd.len() != n || s.wbe.len() != n || s.wbf.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24, it.25, it.26, it.27, it.28, it.29, it.30, it.31, it.32]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24, it.25, it.26, it.27, it.28, it.29, it.30, it.31, it.32]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24, it.25, it.26, it.27, it.28, it.29, it.30, it.31, it.32]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24, it.25, it.26, it.27, it.28, it.29, it.30, it.31, it.32]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Waa>(self, form, cb), 1 => slice_form::<Self, Wab>(self, form, cb), 2 => slice_form::<Self, Wac>(self, form, cb), 3 => slice_form::<Self, Wad>(self, form, cb), 4 => slice_form::<Self, Wae>(self, form, cb), 5 => slice_form::<Self, Waf>(self, form, cb), 6 => slice_form::<Self, Wag>(self, form, cb), 7 => slice_form::<Self, Wah>(self, form, cb), 8 => slice_form::<Self, Wai>(self, form, cb), 9 => slice_form::<Self, Waj>(self, form, cb), 10 => slice_form::<Self, Wak>(self, form, cb), 11 => slice_form::<Self, Wal>(self, form, cb), 12 => slice_form::<Self, Wam>(self, form, cb), 13 => slice_form::<Self, Wan>(self, form, cb), 14 => slice_form::<Self, Wao>(self, form, cb), 15 => slice_form::<Self, Wap>(self, form, cb), 16 => slice_form::<Self, Waq>(self, form, cb), 17 => slice_form::<Self, War>(self, form, cb), 18 => slice_form::<Self, Was>(self, form, cb), 19 => slice_form::<Self, Wat>(self, form, cb), 20 => slice_form::<Self, Wau>(self, form, cb), 21 => slice_form::<Self, Wav>(self, form, cb), 22 => slice_form::<Self, Waw>(self, form, cb), 23 => slice_form::<Self, Wax>(self, form, cb), 24 => slice_form::<Self, Way>(self, form, cb), 25 => slice_form::<Self, Waz>(self, form, cb), 26 => slice_form::<Self, Wba>(self, form, cb), 27 => slice_form::<Self, Wbb>(self, form, cb), 28 => slice_form::<Self, Wbc>(self, form, cb), 29 => slice_form::<Self, Wbd>(self, form, cb), 30 => slice_form::<Self, Wbe>(self, form, cb), 31 => slice_form::<Self, Wbf>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Waa>(self, mutable), 1 => mk_guard_slice::<Self, Wab>(self, mutable), 2 => mk_guard_slice::<Self, Wac>(self, mutable), 3 => mk_guard_slice::<Self, Wad>(self, mutable), 4 => mk_guard_slice::<Self, Wae>(self, mutable), 5 => mk_guard_slice::<Self, Waf>(self, mutable), 6 => mk_guard_slice::<Self, Wag>(self, mutable), 7 => mk_guard_slice::<Self, Wah>(self, mutable), 8 => mk_guard_slice::<Self, Wai>(self, mutable), 9 => mk_guard_slice::<Self, Waj>(self, mutable), 10 => mk_guard_slice::<Self, Wak>(self, mutable), 11 => mk_guard_slice::<Self, Wal>(self, mutable), 12 => mk_guard_slice::<Self, Wam>(self, mutable), 13 => mk_guard_slice::<Self, Wan>(self, mutable), 14 => mk_guard_slice::<Self, Wao>(self, mutable), 15 => mk_guard_slice::<Self, Wap>(self, mutable), 16 => mk_guard_slice::<Self, Waq>(self, mutable), 17 => mk_guard_slice::<Self, War>(self, mutable), 18 => mk_guard_slice::<Self, Was>(self, mutable), 19 => mk_guard_slice::<Self, Wat>(self, mutable), 20 => mk_guard_slice::<Self, Wau>(self, mutable), 21 => mk_guard_slice::<Self, Wav>(self, mutable), 22 => mk_guard_slice::<Self, Waw>(self, mutable), 23 => mk_guard_slice::<Self, Wax>(self, mutable), 24 => mk_guard_slice::<Self, Way>(self, mutable), 25 => mk_guard_slice::<Self, Waz>(self, mutable), 26 => mk_guard_slice::<Self, Wba>(self, mutable), 27 => mk_guard_slice::<Self, Wbb>(self, mutable), 28 => mk_guard_slice::<Self, Wbc>(self, mutable), 29 => mk_guard_slice::<Self, Wbd>(self, mutable), 30 => mk_guard_slice::<Self, Wbe>(self, mutable), 31 => mk_guard_slice::<Self, Wbf>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchXa as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Waa>())) } else { Box::new(GR(b.component::<Waa>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Wab>())) } else { Box::new(GR(b.component::<Wab>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wac>())) } else { Box::new(GR(b.component::<Wac>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Wad>())) } else { Box::new(GR(b.component::<Wad>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Wae>())) } else { Box::new(GR(b.component::<Wae>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Waf>())) } else { Box::new(GR(b.component::<Waf>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wag>())) } else { Box::new(GR(b.component::<Wag>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wah>())) } else { Box::new(GR(b.component::<Wah>())) }, 8 => if mutable { Box::new(GM(b.component_mut::<Wai>())) } else { Box::new(GR(b.component::<Wai>())) }, 9 => if mutable { Box::new(GM(b.component_mut::<Waj>())) } else { Box::new(GR(b.component::<Waj>())) }, 10 => if mutable { Box::new(GM(b.component_mut::<Wak>())) } else { Box::new(GR(b.component::<Wak>())) }, 11 => if mutable { Box::new(GM(b.component_mut::<Wal>())) } else { Box::new(GR(b.component::<Wal>())) }, 12 => if mutable { Box::new(GM(b.component_mut::<Wam>())) } else { Box::new(GR(b.component::<Wam>())) }, 13 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 14 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 15 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, 16 => if mutable { Box::new(GM(b.component_mut::<Waq>())) } else { Box::new(GR(b.component::<Waq>())) }, 17 => if mutable { Box::new(GM(b.component_mut::<War>())) } else { Box::new(GR(b.component::<War>())) }, 18 => if mutable { Box::new(GM(b.component_mut::<Was>())) } else { Box::new(GR(b.component::<Was>())) }, 19 => if mutable { Box::new(GM(b.component_mut::<Wat>())) } else { Box::new(GR(b.component::<Wat>())) }, 20 => if mutable { Box::new(GM(b.component_mut::<Wau>())) } else { Box::new(GR(b.component::<Wau>())) }, 21 => if mutable { Box::new(GM(b.component_mut::<Wav>())) } else { Box::new(GR(b.component::<Wav>())) }, 22 => if mutable { Box::new(GM(b.component_mut::<Waw>())) } else { Box::new(GR(b.component::<Waw>())) }, 23 => if mutable { Box::new(GM(b.component_mut::<Wax>())) } else { Box::new(GR(b.component::<Wax>())) }, 24 => if mutable { Box::new(GM(b.component_mut::<Way>())) } else { Box::new(GR(b.component::<Way>())) }, 25 => if mutable { Box::new(GM(b.component_mut::<Waz>())) } else { Box::new(GR(b.component::<Waz>())) }, 26 => if mutable { Box::new(GM(b.component_mut::<Wba>())) } else { Box::new(GR(b.component::<Wba>())) }, 27 => if mutable { Box::new(GM(b.component_mut::<Wbb>())) } else { Box::new(GR(b.component::<Wbb>())) }, 28 => if mutable { Box::new(GM(b.component_mut::<Wbc>())) } else { Box::new(GR(b.component::<Wbc>())) }, 29 => if mutable { Box::new(GM(b.component_mut::<Wbd>())) } else { Box::new(GR(b.component::<Wbd>())) }, 30 => if mutable { Box::new(GM(b.component_mut::<Wbe>())) } else { Box::new(GR(b.component::<Wbe>())) }, 31 => if mutable { Box::new(GM(b.component_mut::<Wbf>())) } else { Box::new(GR(b.component::<Wbf>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchXa { const NCOLS: usize = 32; }
impl From<PanicInto<ArchXa>> for ArchXaComponents { fn from(p: PanicInto<ArchXa>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchXa as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchXb {
    const IDX: usize = 1;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchXbComponents {
        let c = (<Waf as Comp>::make(v[0]), <Wag as Comp>::make(v[1]), <Wah as Comp>::make(v[2]), <Wai as Comp>::make(v[3]), <Waj as Comp>::make(v[4]), <Wak as Comp>::make(v[5]), <Wal as Comp>::make(v[6]), <Wam as Comp>::make(v[7]), <Wan as Comp>::make(v[8]), <Wao as Comp>::make(v[9]), <Wap as Comp>::make(v[10]), <Waq as Comp>::make(v[11]), <War as Comp>::make(v[12]), <Was as Comp>::make(v[13]), <Wat as Comp>::make(v[14]), <Wau as Comp>::make(v[15]), <Wav as Comp>::make(v[16]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid); ids.push(c.8.get().iid); ids.push(c.9.get().iid); ids.push(c.10.get().iid); ids.push(c.11.get().iid); ids.push(c.12.get().iid); ids.push(c.13.get().iid); ids.push(c.14.get().iid); ids.push(c.15.get().iid); ids.push(c.16.get().iid);
        ArchXbComponents { waf: c.0, wag: c.1, wah: c.2, wai: c.3, waj: c.4, wak: c.5, wal: c.6, wam: c.7, wan: c.8, wao: c.9, wap: c.10, waq: c.11, war: c.12, was: c.13, wat: c.14, wau: c.15, wav: c.16 }
    }
    fn unmake(mut c: ArchXbComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.waf.get()); out.push(c.wag.get()); out.push(c.wah.get()); out.push(c.wai.get()); out.push(c.waj.get()); out.push(c.wak.get()); out.push(c.wal.get()); out.push(c.wam.get()); out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); out.push(c.waq.get()); out.push(c.war.get()); out.push(c.was.get()); out.push(c.wat.get()); out.push(c.wau.get()); out.push(c.wav.get()); }
            1 => { out.push(c.get::<Waf>().get()); out.push(c.get::<Wag>().get()); out.push(c.get::<Wah>().get()); out.push(c.get::<Wai>().get()); out.push(c.get::<Waj>().get()); out.push(c.get::<Wak>().get()); out.push(c.get::<Wal>().get()); out.push(c.get::<Wam>().get()); out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); out.push(c.get::<Waq>().get()); out.push(c.get::<War>().get()); out.push(c.get::<Was>().get()); out.push(c.get::<Wat>().get()); out.push(c.get::<Wau>().get()); out.push(c.get::<Wav>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); }
            _ => { let _ = c.get_mut::<Waf>().get(); let _ = c.get_mut::<Wag>().get(); let _ = c.get_mut::<Wah>().get(); let _ = c.get_mut::<Wai>().get(); let _ = c.get_mut::<Waj>().get(); let _ = c.get_mut::<Wak>().get(); let _ = c.get_mut::<Wal>().get(); let _ = c.get_mut::<Wam>().get(); let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let _ = c.get_mut::<Waq>().get(); let _ = c.get_mut::<War>().get(); let _ = c.get_mut::<Was>().get(); let _ = c.get_mut::<Wat>().get(); let _ = c.get_mut::<Wau>().get(); let _ = c.get_mut::<Wav>().get(); let t: (Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchXb> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Waf, Wag, Wah, Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchXb as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.waf); cb(1, v.wag); cb(2, v.wah); cb(3, v.wai); cb(4, v.waj); cb(5, v.wak); cb(6, v.wal); cb(7, v.wam); cb(8, v.wan); cb(9, v.wao); cb(10, v.wap); cb(11, v.waq); cb(12, v.war); cb(13, v.was); cb(14, v.wat); cb(15, v.wau); cb(16, v.wav); }
        else { { let s = v.component::<Waf>().get(); let m = v.component_mut::<Waf>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Wag>().get(); let m = v.component_mut::<Wag>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wah>().get(); let m = v.component_mut::<Wah>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Wai>().get(); let m = v.component_mut::<Wai>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Waj>().get(); let m = v.component_mut::<Waj>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Wak>().get(); let m = v.component_mut::<Wak>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wal>().get(); let m = v.component_mut::<Wal>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wam>().get(); let m = v.component_mut::<Wam>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(8, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(9, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(10, m); } { let s = v.component::<Waq>().get(); let m = v.component_mut::<Waq>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(11, m); } { let s = v.component::<War>().get(); let m = v.component_mut::<War>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(12, m); } { let s = v.component::<Was>().get(); let m = v.component_mut::<Was>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(13, m); } { let s = v.component::<Wat>().get(); let m = v.component_mut::<Wat>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(14, m); } { let s = v.component::<Wau>().get(); let m = v.component_mut::<Wau>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(15, m); } { let s = v.component::<Wav>().get(); let m = v.component_mut::<Wav>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(16, m); } }
    }
    fn view_entity(v: &<ArchXb as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchXb as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.waf[i]); cb(1, &mut s.wag[i]); cb(2, &mut s.wah[i]); cb(3, &mut s.wai[i]); cb(4, &mut s.waj[i]); cb(5, &mut s.wak[i]); cb(6, &mut s.wal[i]); cb(7, &mut s.wam[i]); cb(8, &mut s.wan[i]); cb(9, &mut s.wao[i]); cb(10, &mut s.wap[i]); cb(11, &mut s.waq[i]); cb(12, &mut s.war[i]); cb(13, &mut s.was[i]); cb(14, &mut s.wat[i]); cb(15, &mut s.wau[i]); cb(16, &mut s.wav[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchXb as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.waf.len() != n || s.wag.len() != n || s.wah.len() != n || s.wai.len() != n || s.waj.len() != n || s.wak.len() != n || s.wal.len() != n || s.wam.len() != n || s.wan.len() != n || s.wao.len() != n || s.wap.len() != n || s.waq.len() != n || s.war.len() != n || s.was.len() != n || s.wat.len() != n || s.wau.len() != n || s.wav.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Waf>(self, form, cb), 1 => slice_form::<Self, Wag>(self, form, cb), 2 => slice_form::<Self, Wah>(self, form, cb), 3 => slice_form::<Self, Wai>(self, form, cb), 4 => slice_form::<Self, Waj>(self, form, cb), 5 => slice_form::<Self, Wak>(self, form, cb), 6 => slice_form::<Self, Wal>(self, form, cb), 7 => slice_form::<Self, Wam>(self, form, cb), 8 => slice_form::<Self, Wan>(self, form, cb), 9 => slice_form::<Self, Wao>(self, form, cb), 10 => slice_form::<Self, Wap>(self, form, cb), 11 => slice_form::<Self, Waq>(self, form, cb), 12 => slice_form::<Self, War>(self, form, cb), 13 => slice_form::<Self, Was>(self, form, cb), 14 => slice_form::<Self, Wat>(self, form, cb), 15 => slice_form::<Self, Wau>(self, form, cb), 16 => slice_form::<Self, Wav>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Waf>(self, mutable), 1 => mk_guard_slice::<Self, Wag>(self, mutable), 2 => mk_guard_slice::<Self, Wah>(self, mutable), 3 => mk_guard_slice::<Self, Wai>(self, mutable), 4 => mk_guard_slice::<Self, Waj>(self, mutable), 5 => mk_guard_slice::<Self, Wak>(self, mutable), 6 => mk_guard_slice::<Self, Wal>(self, mutable), 7 => mk_guard_slice::<Self, Wam>(self, mutable), 8 => mk_guard_slice::<Self, Wan>(self, mutable), 9 => mk_guard_slice::<Self, Wao>(self, mutable), 10 => mk_guard_slice::<Self, Wap>(self, mutable), 11 => mk_guard_slice::<Self, Waq>(self, mutable), 12 => mk_guard_slice::<Self, War>(self, mutable), 13 => mk_guard_slice::<Self, Was>(self, mutable), 14 => mk_guard_slice::<Self, Wat>(self, mutable), 15 => mk_guard_slice::<Self, Wau>(self, mutable), 16 => mk_guard_slice::<Self, Wav>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchXb as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Waf>())) } else { Box::new(GR(b.component::<Waf>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Wag>())) } else { Box::new(GR(b.component::<Wag>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wah>())) } else { Box::new(GR(b.component::<Wah>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Wai>())) } else { Box::new(GR(b.component::<Wai>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Waj>())) } else { Box::new(GR(b.component::<Waj>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Wak>())) } else { Box::new(GR(b.component::<Wak>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wal>())) } else { Box::new(GR(b.component::<Wal>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wam>())) } else { Box::new(GR(b.component::<Wam>())) }, 8 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 9 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 10 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, 11 => if mutable { Box::new(GM(b.component_mut::<Waq>())) } else { Box::new(GR(b.component::<Waq>())) }, 12 => if mutable { Box::new(GM(b.component_mut::<War>())) } else { Box::new(GR(b.component::<War>())) }, 13 => if mutable { Box::new(GM(b.component_mut::<Was>())) } else { Box::new(GR(b.component::<Was>())) }, 14 => if mutable { Box::new(GM(b.component_mut::<Wat>())) } else { Box::new(GR(b.component::<Wat>())) }, 15 => if mutable { Box::new(GM(b.component_mut::<Wau>())) } else { Box::new(GR(b.component::<Wau>())) }, 16 => if mutable { Box::new(GM(b.component_mut::<Wav>())) } else { Box::new(GR(b.component::<Wav>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchXb { const NCOLS: usize = 17; }
impl From<PanicInto<ArchXb>> for ArchXbComponents { fn from(p: PanicInto<ArchXb>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchXb as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl ArchComps for ArchXc {
    const IDX: usize = 2;
    fn make(v: &[u64], ids: &mut Vec<u64>) -> ArchXcComponents {
        let c = (<Wai as Comp>::make(v[0]), <Waj as Comp>::make(v[1]), <Wak as Comp>::make(v[2]), <Wal as Comp>::make(v[3]), <Wam as Comp>::make(v[4]), <Wan as Comp>::make(v[5]), <Wao as Comp>::make(v[6]), <Wap as Comp>::make(v[7]), <Waq as Comp>::make(v[8]), <War as Comp>::make(v[9]), <Was as Comp>::make(v[10]), <Wat as Comp>::make(v[11]), <Wau as Comp>::make(v[12]), <Wav as Comp>::make(v[13]), <Waw as Comp>::make(v[14]), <Wax as Comp>::make(v[15]), <Way as Comp>::make(v[16]), <Waz as Comp>::make(v[17]), <Wba as Comp>::make(v[18]), <Wbb as Comp>::make(v[19]), <Wbc as Comp>::make(v[20]), <Wbd as Comp>::make(v[21]), <Wbe as Comp>::make(v[22]), <Wbf as Comp>::make(v[23]),);
        ids.push(c.0.get().iid); ids.push(c.1.get().iid); ids.push(c.2.get().iid); ids.push(c.3.get().iid); ids.push(c.4.get().iid); ids.push(c.5.get().iid); ids.push(c.6.get().iid); ids.push(c.7.get().iid); ids.push(c.8.get().iid); ids.push(c.9.get().iid); ids.push(c.10.get().iid); ids.push(c.11.get().iid); ids.push(c.12.get().iid); ids.push(c.13.get().iid); ids.push(c.14.get().iid); ids.push(c.15.get().iid); ids.push(c.16.get().iid); ids.push(c.17.get().iid); ids.push(c.18.get().iid); ids.push(c.19.get().iid); ids.push(c.20.get().iid); ids.push(c.21.get().iid); ids.push(c.22.get().iid); ids.push(c.23.get().iid);
        ArchXcComponents { wai: c.0, waj: c.1, wak: c.2, wal: c.3, wam: c.4, wan: c.5, wao: c.6, wap: c.7, waq: c.8, war: c.9, was: c.10, wat: c.11, wau: c.12, wav: c.13, waw: c.14, wax: c.15, way: c.16, waz: c.17, wba: c.18, wbb: c.19, wbc: c.20, wbd: c.21, wbe: c.22, wbf: c.23 }
    }
    fn unmake(mut c: ArchXcComponents, form: u8, out: &mut Vec<CVal>) {
        match form & 3 {
            0 => { out.push(c.wai.get()); out.push(c.waj.get()); out.push(c.wak.get()); out.push(c.wal.get()); out.push(c.wam.get()); out.push(c.wan.get()); out.push(c.wao.get()); out.push(c.wap.get()); out.push(c.waq.get()); out.push(c.war.get()); out.push(c.was.get()); out.push(c.wat.get()); out.push(c.wau.get()); out.push(c.wav.get()); out.push(c.waw.get()); out.push(c.wax.get()); out.push(c.way.get()); out.push(c.waz.get()); out.push(c.wba.get()); out.push(c.wbb.get()); out.push(c.wbc.get()); out.push(c.wbd.get()); out.push(c.wbe.get()); out.push(c.wbf.get()); }
            1 => { out.push(c.get::<Wai>().get()); out.push(c.get::<Waj>().get()); out.push(c.get::<Wak>().get()); out.push(c.get::<Wal>().get()); out.push(c.get::<Wam>().get()); out.push(c.get::<Wan>().get()); out.push(c.get::<Wao>().get()); out.push(c.get::<Wap>().get()); out.push(c.get::<Waq>().get()); out.push(c.get::<War>().get()); out.push(c.get::<Was>().get()); out.push(c.get::<Wat>().get()); out.push(c.get::<Wau>().get()); out.push(c.get::<Wav>().get()); out.push(c.get::<Waw>().get()); out.push(c.get::<Wax>().get()); out.push(c.get::<Way>().get()); out.push(c.get::<Waz>().get()); out.push(c.get::<Wba>().get()); out.push(c.get::<Wbb>().get()); out.push(c.get::<Wbc>().get()); out.push(c.get::<Wbd>().get()); out.push(c.get::<Wbe>().get()); out.push(c.get::<Wbf>().get()); }
            2 => { let t = c.into_tuple(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); out.push(t.17.get()); out.push(t.18.get()); out.push(t.19.get()); out.push(t.20.get()); out.push(t.21.get()); out.push(t.22.get()); out.push(t.23.get()); }
            _ => { let _ = c.get_mut::<Wai>().get(); let _ = c.get_mut::<Waj>().get(); let _ = c.get_mut::<Wak>().get(); let _ = c.get_mut::<Wal>().get(); let _ = c.get_mut::<Wam>().get(); let _ = c.get_mut::<Wan>().get(); let _ = c.get_mut::<Wao>().get(); let _ = c.get_mut::<Wap>().get(); let _ = c.get_mut::<Waq>().get(); let _ = c.get_mut::<War>().get(); let _ = c.get_mut::<Was>().get(); let _ = c.get_mut::<Wat>().get(); let _ = c.get_mut::<Wau>().get(); let _ = c.get_mut::<Wav>().get(); let _ = c.get_mut::<Waw>().get(); let _ = c.get_mut::<Wax>().get(); let _ = c.get_mut::<Way>().get(); let _ = c.get_mut::<Waz>().get(); let _ = c.get_mut::<Wba>().get(); let _ = c.get_mut::<Wbb>().get(); let _ = c.get_mut::<Wbc>().get(); let _ = c.get_mut::<Wbd>().get(); let _ = c.get_mut::<Wbe>().get(); let _ = c.get_mut::<Wbf>().get(); let t: (Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf,) = c.into(); out.push(t.0.get()); out.push(t.1.get()); out.push(t.2.get()); out.push(t.3.get()); out.push(t.4.get()); out.push(t.5.get()); out.push(t.6.get()); out.push(t.7.get()); out.push(t.8.get()); out.push(t.9.get()); out.push(t.10.get()); out.push(t.11.get()); out.push(t.12.get()); out.push(t.13.get()); out.push(t.14.get()); out.push(t.15.get()); out.push(t.16.get()); out.push(t.17.get()); out.push(t.18.get()); out.push(t.19.get()); out.push(t.20.get()); out.push(t.21.get()); out.push(t.22.get()); out.push(t.23.get()); }
        }
    }
    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<ArchXc> {
        let c = { let _g = OutLib::new(); Self::make(v, ids) };
        match form & 1 { 0 => self.create(c), _ => { let t: (Wai, Waj, Wak, Wal, Wam, Wan, Wao, Wap, Waq, War, Was, Wat, Wau, Wav, Waw, Wax, Way, Waz, Wba, Wbb, Wbc, Wbd, Wbe, Wbf,) = c.into(); self.create(t) } }
    }
    fn view_do(v: &mut <ArchXc as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {
        if form & 1 == 0 { cb(0, v.wai); cb(1, v.waj); cb(2, v.wak); cb(3, v.wal); cb(4, v.wam); cb(5, v.wan); cb(6, v.wao); cb(7, v.wap); cb(8, v.waq); cb(9, v.war); cb(10, v.was); cb(11, v.wat); cb(12, v.wau); cb(13, v.wav); cb(14, v.waw); cb(15, v.wax); cb(16, v.way); cb(17, v.waz); cb(18, v.wba); cb(19, v.wbb); cb(20, v.wbc); cb(21, v.wbd); cb(22, v.wbe); cb(23, v.wbf); }
        else { { let s = v.component::<Wai>().get(); let m = v.component_mut::<Wai>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(0, m); } { let s = v.component::<Waj>().get(); let m = v.component_mut::<Waj>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(1, m); } { let s = v.component::<Wak>().get(); let m = v.component_mut::<Wak>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(2, m); } { let s = v.component::<Wal>().get(); let m = v.component_mut::<Wal>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(3, m); } { let s = v.component::<Wam>().get(); let m = v.component_mut::<Wam>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(4, m); } { let s = v.component::<Wan>().get(); let m = v.component_mut::<Wan>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(5, m); } { let s = v.component::<Wao>().get(); let m = v.component_mut::<Wao>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(6, m); } { let s = v.component::<Wap>().get(); let m = v.component_mut::<Wap>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(7, m); } { let s = v.component::<Waq>().get(); let m = v.component_mut::<Waq>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(8, m); } { let s = v.component::<War>().get(); let m = v.component_mut::<War>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(9, m); } { let s = v.component::<Was>().get(); let m = v.component_mut::<Was>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(10, m); } { let s = v.component::<Wat>().get(); let m = v.component_mut::<Wat>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(11, m); } { let s = v.component::<Wau>().get(); let m = v.component_mut::<Wau>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(12, m); } { let s = v.component::<Wav>().get(); let m = v.component_mut::<Wav>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(13, m); } { let s = v.component::<Waw>().get(); let m = v.component_mut::<Waw>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(14, m); } { let s = v.component::<Wax>().get(); let m = v.component_mut::<Wax>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(15, m); } { let s = v.component::<Way>().get(); let m = v.component_mut::<Way>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(16, m); } { let s = v.component::<Waz>().get(); let m = v.component_mut::<Waz>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(17, m); } { let s = v.component::<Wba>().get(); let m = v.component_mut::<Wba>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(18, m); } { let s = v.component::<Wbb>().get(); let m = v.component_mut::<Wbb>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(19, m); } { let s = v.component::<Wbc>().get(); let m = v.component_mut::<Wbc>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(20, m); } { let s = v.component::<Wbd>().get(); let m = v.component_mut::<Wbd>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(21, m); } { let s = v.component::<Wbe>().get(); let m = v.component_mut::<Wbe>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(22, m); } { let s = v.component::<Wbf>().get(); let m = v.component_mut::<Wbf>(); if m.get() != s { crate::comp::integrity("view component/component_mut disagree"); } cb(23, m); } }
    }
    fn view_entity(v: &<ArchXc as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }
    fn all_slices_do(s: &mut <ArchXc as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {
        cb(0, &mut s.wai[i]); cb(1, &mut s.waj[i]); cb(2, &mut s.wak[i]); cb(3, &mut s.wal[i]); cb(4, &mut s.wam[i]); cb(5, &mut s.wan[i]); cb(6, &mut s.wao[i]); cb(7, &mut s.wap[i]); cb(8, &mut s.waq[i]); cb(9, &mut s.war[i]); cb(10, &mut s.was[i]); cb(11, &mut s.wat[i]); cb(12, &mut s.wau[i]); cb(13, &mut s.wav[i]); cb(14, &mut s.waw[i]); cb(15, &mut s.wax[i]); cb(16, &mut s.way[i]); cb(17, &mut s.waz[i]); cb(18, &mut s.wba[i]); cb(19, &mut s.wbb[i]); cb(20, &mut s.wbc[i]); cb(21, &mut s.wbd[i]); cb(22, &mut s.wbe[i]); cb(23, &mut s.wbf[i]);
        s.entity[i].into_any()
    }
    fn all_slices_len(s: &<ArchXc as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if s.wai.len() != n || s.waj.len() != n || s.wak.len() != n || s.wal.len() != n || s.wam.len() != n || s.wan.len() != n || s.wao.len() != n || s.wap.len() != n || s.waq.len() != n || s.war.len() != n || s.was.len() != n || s.wat.len() != n || s.wau.len() != n || s.wav.len() != n || s.waw.len() != n || s.wax.len() != n || s.way.len() != n || s.waz.len() != n || s.wba.len() != n || s.wbb.len() != n || s.wbc.len() != n || s.wbd.len() != n || s.wbe.len() != n || s.wbf.len() != n { crate::comp::integrity("slices differ in length"); } n }
    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24]) } }
    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24]) } }
    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24]) }) }
    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [it.1, it.2, it.3, it.4, it.5, it.6, it.7, it.8, it.9, it.10, it.11, it.12, it.13, it.14, it.15, it.16, it.17, it.18, it.19, it.20, it.21, it.22, it.23, it.24]) }) }
    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { 0 => slice_form::<Self, Wai>(self, form, cb), 1 => slice_form::<Self, Waj>(self, form, cb), 2 => slice_form::<Self, Wak>(self, form, cb), 3 => slice_form::<Self, Wal>(self, form, cb), 4 => slice_form::<Self, Wam>(self, form, cb), 5 => slice_form::<Self, Wan>(self, form, cb), 6 => slice_form::<Self, Wao>(self, form, cb), 7 => slice_form::<Self, Wap>(self, form, cb), 8 => slice_form::<Self, Waq>(self, form, cb), 9 => slice_form::<Self, War>(self, form, cb), 10 => slice_form::<Self, Was>(self, form, cb), 11 => slice_form::<Self, Wat>(self, form, cb), 12 => slice_form::<Self, Wau>(self, form, cb), 13 => slice_form::<Self, Wav>(self, form, cb), 14 => slice_form::<Self, Waw>(self, form, cb), 15 => slice_form::<Self, Wax>(self, form, cb), 16 => slice_form::<Self, Way>(self, form, cb), 17 => slice_form::<Self, Waz>(self, form, cb), 18 => slice_form::<Self, Wba>(self, form, cb), 19 => slice_form::<Self, Wbb>(self, form, cb), 20 => slice_form::<Self, Wbc>(self, form, cb), 21 => slice_form::<Self, Wbd>(self, form, cb), 22 => slice_form::<Self, Wbe>(self, form, cb), 23 => slice_form::<Self, Wbf>(self, form, cb), _ => unreachable!() } }
    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { 0 => mk_guard_slice::<Self, Wai>(self, mutable), 1 => mk_guard_slice::<Self, Waj>(self, mutable), 2 => mk_guard_slice::<Self, Wak>(self, mutable), 3 => mk_guard_slice::<Self, Wal>(self, mutable), 4 => mk_guard_slice::<Self, Wam>(self, mutable), 5 => mk_guard_slice::<Self, Wan>(self, mutable), 6 => mk_guard_slice::<Self, Wao>(self, mutable), 7 => mk_guard_slice::<Self, Wap>(self, mutable), 8 => mk_guard_slice::<Self, Waq>(self, mutable), 9 => mk_guard_slice::<Self, War>(self, mutable), 10 => mk_guard_slice::<Self, Was>(self, mutable), 11 => mk_guard_slice::<Self, Wat>(self, mutable), 12 => mk_guard_slice::<Self, Wau>(self, mutable), 13 => mk_guard_slice::<Self, Wav>(self, mutable), 14 => mk_guard_slice::<Self, Waw>(self, mutable), 15 => mk_guard_slice::<Self, Wax>(self, mutable), 16 => mk_guard_slice::<Self, Way>(self, mutable), 17 => mk_guard_slice::<Self, Waz>(self, mutable), 18 => mk_guard_slice::<Self, Wba>(self, mutable), 19 => mk_guard_slice::<Self, Wbb>(self, mutable), 20 => mk_guard_slice::<Self, Wbc>(self, mutable), 21 => mk_guard_slice::<Self, Wbd>(self, mutable), 22 => mk_guard_slice::<Self, Wbe>(self, mutable), 23 => mk_guard_slice::<Self, Wbf>(self, mutable), _ => unreachable!() } }
    fn guard_comp<'b>(b: &'b <ArchXc as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { 0 => if mutable { Box::new(GM(b.component_mut::<Wai>())) } else { Box::new(GR(b.component::<Wai>())) }, 1 => if mutable { Box::new(GM(b.component_mut::<Waj>())) } else { Box::new(GR(b.component::<Waj>())) }, 2 => if mutable { Box::new(GM(b.component_mut::<Wak>())) } else { Box::new(GR(b.component::<Wak>())) }, 3 => if mutable { Box::new(GM(b.component_mut::<Wal>())) } else { Box::new(GR(b.component::<Wal>())) }, 4 => if mutable { Box::new(GM(b.component_mut::<Wam>())) } else { Box::new(GR(b.component::<Wam>())) }, 5 => if mutable { Box::new(GM(b.component_mut::<Wan>())) } else { Box::new(GR(b.component::<Wan>())) }, 6 => if mutable { Box::new(GM(b.component_mut::<Wao>())) } else { Box::new(GR(b.component::<Wao>())) }, 7 => if mutable { Box::new(GM(b.component_mut::<Wap>())) } else { Box::new(GR(b.component::<Wap>())) }, 8 => if mutable { Box::new(GM(b.component_mut::<Waq>())) } else { Box::new(GR(b.component::<Waq>())) }, 9 => if mutable { Box::new(GM(b.component_mut::<War>())) } else { Box::new(GR(b.component::<War>())) }, 10 => if mutable { Box::new(GM(b.component_mut::<Was>())) } else { Box::new(GR(b.component::<Was>())) }, 11 => if mutable { Box::new(GM(b.component_mut::<Wat>())) } else { Box::new(GR(b.component::<Wat>())) }, 12 => if mutable { Box::new(GM(b.component_mut::<Wau>())) } else { Box::new(GR(b.component::<Wau>())) }, 13 => if mutable { Box::new(GM(b.component_mut::<Wav>())) } else { Box::new(GR(b.component::<Wav>())) }, 14 => if mutable { Box::new(GM(b.component_mut::<Waw>())) } else { Box::new(GR(b.component::<Waw>())) }, 15 => if mutable { Box::new(GM(b.component_mut::<Wax>())) } else { Box::new(GR(b.component::<Wax>())) }, 16 => if mutable { Box::new(GM(b.component_mut::<Way>())) } else { Box::new(GR(b.component::<Way>())) }, 17 => if mutable { Box::new(GM(b.component_mut::<Waz>())) } else { Box::new(GR(b.component::<Waz>())) }, 18 => if mutable { Box::new(GM(b.component_mut::<Wba>())) } else { Box::new(GR(b.component::<Wba>())) }, 19 => if mutable { Box::new(GM(b.component_mut::<Wbb>())) } else { Box::new(GR(b.component::<Wbb>())) }, 20 => if mutable { Box::new(GM(b.component_mut::<Wbc>())) } else { Box::new(GR(b.component::<Wbc>())) }, 21 => if mutable { Box::new(GM(b.component_mut::<Wbd>())) } else { Box::new(GR(b.component::<Wbd>())) }, 22 => if mutable { Box::new(GM(b.component_mut::<Wbe>())) } else { Box::new(GR(b.component::<Wbe>())) }, 23 => if mutable { Box::new(GM(b.component_mut::<Wbf>())) } else { Box::new(GR(b.component::<Wbf>())) }, _ => unreachable!() } }
    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }
}
impl NCols for ArchXc { const NCOLS: usize = 24; }
impl From<PanicInto<ArchXc>> for ArchXcComponents { fn from(p: PanicInto<ArchXc>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <ArchXc as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }

impl WorldDyn for WorldWideX {
    fn meta(&self) -> &'static WorldMeta { &META }
    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {
        0 | 1 => Box::new(self.clone()),
        2 => { let mut x = WorldWideX::new(); x.clone_from(self); Box::new(x) }
        3 => Box::new(WorldWideX { arch_xc: self.arch_xc.clone(), arch_xb: self.arch_xb.clone(), arch_xa: self.arch_xa.clone() }),
        4 => { let mut x = WorldWideX::default(); x.arch_xa.clone_from(&self.arch_xa); x.arch_xb.clone_from(&self.arch_xb); x.arch_xc.clone_from(&self.arch_xc); Box::new(x) }
        _ => { let mut x = self.clone(); let mut y = WorldWideX::new(); std::mem::swap(&mut x, &mut y); std::mem::swap(&mut x.arch_xa, &mut y.arch_xa); std::mem::swap(&mut x.arch_xb, &mut y.arch_xb); std::mem::swap(&mut x.arch_xc, &mut y.arch_xc); Box::new(x) }
    } }
    fn as_any(&self) -> &dyn std::any::Any { self }
    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<WorldWideX>().unwrap();
        match form { 0 => self.clone_from(of), _ => { self.arch_xa.clone_from(&of.arch_xa); self.arch_xb.clone_from(&of.arch_xb); self.arch_xc.clone_from(&of.arch_xc); } } }
    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { 0 => &self.arch_xa, 1 => &self.arch_xb, 2 => &self.arch_xc, _ => unreachable!() } }
    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { 0 => &mut self.arch_xa, 1 => &mut self.arch_xb, 2 => &mut self.arch_xc, _ => unreachable!() } }
    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [0 ArchXa, 1 ArchXb, 2 ArchXc], |k| self.contains(k)) }
    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [0 ArchXa, 1 ArchXb, 2 ArchXc], |k| self.to_direct(k).map(|d| d.into_any())) }
    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {
        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },
        Some(0) => w_destroy_typed::<Self, ArchXa>(self, k, form, out),
        Some(1) => w_destroy_typed::<Self, ArchXb>(self, k, form, out),
        Some(2) => w_destroy_typed::<Self, ArchXc>(self, k, form, out),
        _ => unreachable!() } }
    fn w_view(&mut self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_view_typed::<Self, ArchXa>(self, k, form, cb),
        Some(1) => w_view_typed::<Self, ArchXb>(self, k, form, cb),
        Some(2) => w_view_typed::<Self, ArchXc>(self, k, form, cb),
        _ => None } }
    fn w_borrow(&self, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {
        Some(0) => w_borrow_typed::<Self, ArchXa>(self, k, form, cb),
        Some(1) => w_borrow_typed::<Self, ArchXb>(self, k, form, cb),
        Some(2) => w_borrow_typed::<Self, ArchXc>(self, k, form, cb),
        _ => None } }
    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { 0 => w_create_typed::<Self, ArchXa>(self, v, ids, form), 1 => w_create_typed::<Self, ArchXb>(self, v, ids, form), 2 => w_create_typed::<Self, ArchXc>(self, v, ids, form), _ => unreachable!() } }
    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { 0 => w_create_wc_typed::<Self, ArchXa>(self, v, ids, form, out), 1 => w_create_wc_typed::<Self, ArchXb>(self, v, ids, form, out), 2 => w_create_wc_typed::<Self, ArchXc>(self, v, ids, form, out), _ => unreachable!() } }
    #[cfg(feature = "events")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {
        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }
    }
    #[cfg(feature = "events")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {
        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }
    #[cfg(feature = "events")] fn w_clear_events(&mut self) { self.clear_events() }
    fn q_find(&mut self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchXa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchXa>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchXb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchXb>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchXc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchXc>(h, k.conv); ecs_find!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_find_borrow(&self, q: usize, k: Key, refs: u8, cb: Cb<'_>) -> Option<u64> { let world = self; match q {
        0 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (Some(0), EntP::E(h), _) => { let h = ke::<ArchXa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(0), EntP::D(h), _) => { let h = kd::<ArchXa>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::E(h), _) => { let h = ke::<ArchXb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(1), EntP::D(h), _) => { let h = kd::<ArchXb>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::E(h), _) => { let h = ke::<ArchXc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (Some(2), EntP::D(h), _) => { let h = kd::<ArchXc>(h, k.conv); ecs_find_borrow!(world, h, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            _ => unreachable!() },
        1 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::D(h), 1) => ecs_find_borrow!(world, &h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }),
            (None, EntP::E(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::D(mut h), 2) => { let h = &mut h; ecs_find_borrow!(world, h, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }) }
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirect<_>, p1: &EntityAny| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        2 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        3 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| -> u64 { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        4 => match (k.typed, k.h, refs) {
            (None, EntP::E(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            (None, EntP::D(h), _) => { let mut n = 0; let r = ecs_find_borrow!(world, { n += 1; h }, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; if r == 0 { return 1000 } r as u64 + 1000 }); once(n); r }
            _ => unreachable!() },
        _ => unreachable!() } }
    fn q_iter(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter!(world, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter!(world, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter!(world, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_borrow(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        2 => { ecs_iter_borrow!(world, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        3 => { ecs_iter_borrow!(world, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        4 => { ecs_iter_borrow!(world, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_borrow_unit(&self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_borrow!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_borrow!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_iter_destroy(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        2 => { ecs_iter_destroy!(world, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        3 => { ecs_iter_destroy!(world, |p0: &Entity<ArchXb>, p1: &mut Waf, p2: &Wag, p3: &mut Wah, p4: &Wai, p5: &mut Waj, p6: &Wak, p7: &mut Wal, p8: &Wam, p9: &mut Wan, p10: &Wao, p11: &mut Wap, p12: &Waq, p13: &mut War, p14: &Was, p15: &mut Wat, p16: &Wau, p17: &mut Wav| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2), CompP::M(p3), CompP::R(p4), CompP::M(p5), CompP::R(p6), CompP::M(p7), CompP::R(p8), CompP::M(p9), CompP::R(p10), CompP::M(p11), CompP::R(p12), CompP::M(p13), CompP::R(p14), CompP::M(p15), CompP::R(p16), CompP::M(p17)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        4 => { ecs_iter_destroy!(world, |p0: &EntityDirectAny, p1: &EntityAny, p2: &mut Wbf, p3: &Waz| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [CompP::M(p2), CompP::R(p3)], other: None }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_step(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
        _ => unreachable!() } }
    fn q_iter_destroy_unit(&mut self, q: usize, cb: Cb<'_>) -> () { let world = self; match q {
        0 => { ecs_iter_destroy!(world, |p0: &Entity<_>, p1: &mut Wan, p2: &Wao| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::M(p1), CompP::R(p2)], other: None }) }; let _ = r; }); }
        1 => { ecs_iter_destroy!(world, |p0: &EntityDirect<_>, p1: &EntityAny| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::D((*p0).into_any()), EntP::E((*p1).into_any())], comps: &mut [], other: None }) }; let _ = r; }); }
        _ => unreachable!() } }
    fn q_sneaky(&mut self, q: usize, kind: u8, k: Key, cb: Cb<'_>) -> () { let world = self; match q {
        0 => match kind {
            0 => { ecs_iter!(world, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: Some((1, &mut world.arch_xb)) }) }; match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue } }); }
            1 => { ecs_iter_destroy!(world, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: Some((1, &mut world.arch_xb)) }) }; match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue } }); }
            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: Some((1, &mut world.arch_xb)) }) }; let _ = r; }); } EntP::D(h) => { ecs_find!(world, h, |p0: &Entity<ArchXa>, p1: &Waa, p2: &mut Wab, p3: &Wac, p4: &mut Wad, p5: &Wae, p6: &mut Waf, p7: &Wag, p8: &mut Wah, p9: &Wai, p10: &mut Waj, p11: &Wak, p12: &mut Wal, p13: &Wam, p14: &mut Wan, p15: &Wao, p16: &mut Wap, p17: &Waq, p18: &mut War, p19: &Was, p20: &mut Wat, p21: &Wau, p22: &mut Wav, p23: &Waw, p24: &mut Wax, p25: &Way, p26: &mut Waz, p27: &Wba, p28: &mut Wbb, p29: &Wbc, p30: &mut Wbd, p31: &Wbe, p32: &mut Wbf| { let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), ents: &[EntP::E((*p0).into_any())], comps: &mut [CompP::R(p1), CompP::M(p2), CompP::R(p3), CompP::M(p4), CompP::R(p5), CompP::M(p6), CompP::R(p7), CompP::M(p8), CompP::R(p9), CompP::M(p10), CompP::R(p11), CompP::M(p12), CompP::R(p13), CompP::M(p14), CompP::R(p15), CompP::M(p16), CompP::R(p17), CompP::M(p18), CompP::R(p19), CompP::M(p20), CompP::R(p21), CompP::M(p22), CompP::R(p23), CompP::M(p24), CompP::R(p25), CompP::M(p26), CompP::R(p27), CompP::M(p28), CompP::R(p29), CompP::M(p30), CompP::R(p31), CompP::M(p32)], other: Some((1, &mut world.arch_xb)) }) }; let _ = r; }); } } }
        },
        _ => unreachable!() } }
}

pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {
    0 => Box::new(WorldWideX::with_capacity(WorldWideXCapacity { arch_xa: c[0], arch_xb: c[1], arch_xc: c[2] })),
    1 => Box::new(WorldWideX::new()),
    2 => Box::new(WorldWideX::default()),
    _ => Box::new(WorldWideX { arch_xa: ArchXa::with_capacity(c[0]), arch_xb: ArchXb::with_capacity(c[1]), arch_xc: ArchXc::with_capacity(c[2]) }),
} }
