#!/usr/bin/env python3
"""Generates src/worlds/*.rs: world declarations, query specs, and their object-safe adapters.

The matching/binding tables (Spec.binds) are computed here from the declared component sets, and
independently of the macros under test. Output is committed; rerun by hand after editing.
"""
import os, sys
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "src", "worlds")

def snake(name):
    out = ""
    for i, c in enumerate(name):
        if c.isupper() and i: out += "_"
        out += c.lower()
    return out

class Arch:
    def __init__(self, name, comps, id=None, decl=None):
        self.name, self.comps, self.id = name, comps, id
        self.field = snake(name)
        self.decl = decl or comps   # as written in the declaration: with cfg'd and numbered components

# Params: ("E","any"|"wild"|ArchName), ("D","any"|"wild"|ArchName), ("C", mut, Comp), ("O", mut, [Comps]), ("X", text) cfg-disabled
def match(archs, params):
    binds = []
    for a in archs:
        cols, ok = [], True
        for p in params:
            if p[0] in "ED":
                if p[1] not in ("any", "wild") and p[1] != a.name: ok = False
            elif p[0] == "C":
                if p[2] in a.comps: cols.append((a.comps.index(p[2]), p[1]))
                else: ok = False
            elif p[0] == "O":
                f = [c for c in p[2] if c in a.comps]
                assert len(f) <= 1, (a.name, p)
                if f: cols.append((a.comps.index(f[0]), p[1]))
                else: ok = False
        binds.append(cols if ok else None)
    return binds

def param_text(i, p):
    n = "p%d" % i
    if p[0] == "E":
        return "%s%s: &%s" % (p[2] + " " if len(p) > 2 else "", n, {"any": "EntityAny", "wild": "Entity<_>"}.get(p[1], "Entity<%s>" % p[1]))
    if p[0] == "D":
        return "%s%s: &%s" % (p[2] + " " if len(p) > 2 else "", n, {"any": "EntityDirectAny", "wild": "EntityDirect<_>"}.get(p[1], "EntityDirect<%s>" % p[1]))
    if p[0] == "C":
        return "%s%s: &%s%s" % ("#[cfg(all())] " if len(p) > 3 else "", n, "mut " if p[1] else "", p[2])
    if p[0] == "O":
        return "%s: &%sOneOf<%s>" % (n, "mut " if p[1] else "", ", ".join(p[2]))
    if p[0] == "X":
        return "#[cfg(any())] %s: &%s" % (n, p[1])

def closure_parts(params):
    ents, comps = [], []
    for i, p in enumerate(params):
        n = "p%d" % i
        if p[0] == "E": ents.append("EntP::E((*%s).into_any())" % n)
        elif p[0] == "D": ents.append("EntP::D((*%s).into_any())" % n)
        elif p[0] in "CO": comps.append("CompP::%s(%s)" % ("M" if p[1] else "R", n))
    return ents, comps

def body(params, tail, other="None"):
    ents, comps = closure_parts(params)
    return ("{ let r = { let _g = OutLib::new(); cb(&mut Visit { arch: aix(<MatchedArchetype as Archetype>::ARCHETYPE_ID), "
            "ents: &[%s], comps: &mut [%s], other: %s }) }; %s }" % (", ".join(ents), ", ".join(comps), other, tail))

STEP = "match r { 0 => return EcsStep::Continue, 5 => return EcsStep::Break, 1 => EcsStep::Break, 4 => EcsStep::default(), _ => EcsStep::Continue }"
STEPD = "match r { 0 => return EcsStepDestroy::Continue, 5 => return EcsStepDestroy::Break, 6 => return EcsStepDestroy::ContinueDestroy, 7 => return EcsStepDestroy::BreakDestroy, 1 => EcsStepDestroy::Break, 2 => EcsStepDestroy::ContinueDestroy, 3 => EcsStepDestroy::BreakDestroy, 4 => EcsStepDestroy::default(), _ => EcsStepDestroy::Continue }"

def gen_world(mod, world, archs, queries, typed_find, ref_find, sneaky=None, noise={}):
    o = []
    w = o.append
    w("// @generated by gen/gen.py -- do not edit.")
    w("#![allow(unused, clippy::all)]")
    w("use gecs::prelude::*;")
    w("use gecs::traits::{Components as _, Borrow as _, View as _};")
    w("use crate::comp::*;\nuse crate::api::*;\nuse std::cell::{Ref, RefMut};\n")
    w("ecs_world! {" + ("\n    ecs_name!(%s);" % world if world != "EcsWorld" else ""))
    for k, a in enumerate(archs):
        for t in noise.get(k, []): w("    " + t)   # disabled archetypes
        if a.id is not None: w("    #[archetype_id(%d)]" % a.id)
        w("    ecs_archetype!(%s, %s);" % (a.name, ", ".join(a.decl)))
    w("}\n")
    # ids by the discriminant rule
    nxt = 0; ids = []
    for a in archs:
        i = a.id if a.id is not None else nxt
        ids.append(i); nxt = i + 1
    assert len(set(ids)) == len(ids)
    w("pub const IDS: &[u8] = &[%s];" % ", ".join(map(str, ids)))
    w("#[inline] fn aix(id: u8) -> usize { match id { %s, _ => usize::MAX } }" % ", ".join("%d => %d" % (i, k) for k, i in enumerate(ids)))
    w("pub static META: WorldMeta = WorldMeta { name: \"%s\", ids: IDS, archs: &[" % mod)
    for a in archs:
        w("    ArchMeta { name: \"%s\", kinds: &[%s] }," % (a.name, ", ".join("<%s as Comp>::KIND" % c for c in a.comps)))
    w("], queries: &[")
    for qi, q in enumerate(queries):
        b = match(archs, q)
        ents = "".join(p[0] for p in q if p[0] in "ED")
        bs = ", ".join("None" if x is None else "Some(&[%s])" % ", ".join("(%d, %s)" % (c, "true" if m else "false") for c, m in x) for x in b)
        w("    QuerySpec { binds: &[%s], ents: \"%s\", typed: %s, refs: %s }," % (bs, ents, "true" if qi in typed_find else "false", "true" if qi in ref_find else "false"))
    w("], sneaky: %s };\n" % ("&[%s]" % ", ".join("(%d, %d)" % s for s in (sneaky or []))))

    for k, a in enumerate(archs):
        f = [snake(c) for c in a.comps]
        w("impl ArchComps for %s {" % a.name)
        w("    const IDX: usize = %d;" % k)
        w("    fn make(v: &[u64], ids: &mut Vec<u64>) -> %sComponents {" % a.name)
        w("        let c = (%s,);" % ", ".join("<%s as Comp>::make(v[%d])" % (c, i) for i, c in enumerate(a.comps)))
        w("        %s" % " ".join("ids.push(c.%d.get().iid);" % i for i in range(len(f))))
        w("        %sComponents { %s }" % (a.name, ", ".join("%s: c.%d" % (x, i) for i, x in enumerate(f))))
        w("    }")
        w("    fn unmake(mut c: %sComponents, form: u8, out: &mut Vec<CVal>) {" % a.name)
        w("        match form & 3 {")
        w("            0 => { %s }" % " ".join("out.push(c.%s.get());" % x for x in f))
        w("            1 => { %s }" % " ".join("out.push(c.get::<%s>().get());" % x for x in a.comps))
        w("            2 => { let t = c.into_tuple(); %s }" % " ".join("out.push(t.%d.get());" % i for i in range(len(f))))
        w("            _ => { %s let t: (%s,) = c.into(); %s }" % (" ".join("let _ = c.get_mut::<%s>().get();" % x for x in a.comps), ", ".join(a.comps), " ".join("out.push(t.%d.get());" % i for i in range(len(f)))))
        w("        }\n    }")
        w("    fn create_form(&mut self, v: &[u64], ids: &mut Vec<u64>, form: u8) -> Entity<%s> {" % a.name)
        w("        let c = { let _g = OutLib::new(); Self::make(v, ids) };")
        w("        match form & 1 { 0 => self.create(c), _ => { let t: (%s,) = c.into(); self.create(t) } }" % ", ".join(a.comps))
        w("    }")
        w("    fn view_do(v: &mut <%s as Archetype>::View<'_>, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) {" % a.name)
        w("        if form & 1 == 0 { %s }" % " ".join("cb(%d, v.%s);" % (i, x) for i, x in enumerate(f)))
        w("        else { %s }" % " ".join("{ let s = v.component::<%s>().get(); let m = v.component_mut::<%s>(); if m.get() != s { crate::comp::integrity(\"view component/component_mut disagree\"); } cb(%d, m); }" % (c, c, i) for i, c in enumerate(a.comps)))
        w("    }")
        w("    fn view_entity(v: &<%s as Archetype>::View<'_>) -> EntityAny { (*v.entity).into_any() }" % a.name)
        w("    fn all_slices_do(s: &mut <%s as Archetype>::Slices<'_>, i: usize, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> EntityAny {" % a.name)
        w("        %s" % " ".join("cb(%d, &mut s.%s[i]);" % (k2, x) for k2, x in enumerate(f)))
        w("        s.entity[i].into_any()\n    }")
        w("    fn all_slices_len(s: &<%s as Archetype>::Slices<'_>) -> usize { let n = s.entity.len(); if %s { crate::comp::integrity(\"slices differ in length\"); } n }" % (a.name, " || ".join("s.%s.len() != n" % x for x in f)))
        w("    fn iter_do(&mut self, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) { for it in self.iter() { let _g = OutLib::new(); cb(it.0.into_any(), &[%s]) } }" % ", ".join("it.%d" % (i + 1) for i in range(len(f))))
        w("    fn iter_mut_do(&mut self, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) { for it in self.iter_mut() { let _g = OutLib::new(); cb(it.0.into_any(), &mut [%s]) } }" % ", ".join("it.%d" % (i + 1) for i in range(len(f))))
        w("    fn iter_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &[&dyn CompDyn])) -> usize { drive(self.iter(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &[%s]) }) }" % ", ".join("it.%d" % (i + 1) for i in range(len(f))))
        w("    fn iter_mut_form_do(&mut self, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny, &mut [&mut dyn CompDyn])) -> usize { drive(self.iter_mut(), form, n, &mut |it| { let _g = OutLib::new(); cb(it.0.into_any(), &mut [%s]) }) }" % ", ".join("it.%d" % (i + 1) for i in range(len(f))))
        w("    fn slice_do(&mut self, col: usize, form: u8, cb: &mut dyn FnMut(&mut dyn SliceDyn)) { match col { %s _ => unreachable!() } }" % " ".join("%d => slice_form::<Self, %s>(self, form, cb)," % (i, c) for i, c in enumerate(a.comps)))
        w("    fn guard_slice(&self, col: usize, mutable: bool) -> Box<dyn Guard + '_> { match col { %s _ => unreachable!() } }" % " ".join("%d => mk_guard_slice::<Self, %s>(self, mutable)," % (i, c) for i, c in enumerate(a.comps)))
        w("    fn guard_comp<'b>(b: &'b <%s as Archetype>::Borrow<'_>, col: usize, mutable: bool) -> Box<dyn Guard + 'b> { match col { %s _ => unreachable!() } }" % (a.name, " ".join("%d => if mutable { Box::new(GM(b.component_mut::<%s>())) } else { Box::new(GR(b.component::<%s>())) }," % (i, c, c) for i, c in enumerate(a.comps))))
        w("    #[cfg(gecs_verif)] fn preset(&mut self, slot: std::num::NonZeroU32, arch: std::num::NonZeroU32) { self.data.verif_preset_versions(slot, arch) }")
        w("}")
        w("impl NCols for %s { const NCOLS: usize = %d; }" % (a.name, len(f)))
        w("impl From<PanicInto<%s>> for %sComponents { fn from(p: PanicInto<%s>) -> Self { let _g = OutLib::new(); let mut ids = vec![]; let _c = <%s as ArchComps>::make(&p.0, &mut ids); injected(FK_INTO) } }" % (a.name, a.name, a.name, a.name))
        w("")

    w("impl WorldDyn for %s {" % world)
    w("    fn meta(&self) -> &'static WorldMeta { &META }")
    w("    fn clone_world(&self, form: u8) -> Box<dyn WorldDyn> { match form {")
    w("        0 | 1 => Box::new(self.clone()),")
    w("        2 => { let mut x = %s::new(); x.clone_from(self); Box::new(x) }" % world)
    w("        3 => Box::new(%s { %s })," % (world, ", ".join("%s: self.%s.clone()" % (a.field, a.field) for a in reversed(archs))))
    w("        4 => { let mut x = %s::default(); %s Box::new(x) }" % (world, " ".join("x.%s.clone_from(&self.%s);" % (a.field, a.field) for a in archs)))
    w("        _ => { let mut x = self.clone(); let mut y = %s::new(); std::mem::swap(&mut x, &mut y); %s Box::new(x) }" % (world, " ".join("std::mem::swap(&mut x.%s, &mut y.%s);" % (a.field, a.field) for a in archs)))
    w("    } }")
    w("    fn as_any(&self) -> &dyn std::any::Any { self }")
    w("    fn become_clone(&mut self, of: &dyn WorldDyn, form: u8) { let of = of.as_any().downcast_ref::<%s>().unwrap();" % world)
    w("        match form { 0 => self.clone_from(of), _ => { %s } } }" % " ".join("self.%s.clone_from(&of.%s);" % (a.field, a.field) for a in archs))
    w("    fn arch(&self, a: usize) -> &dyn ArchDyn { match a { %s _ => unreachable!() } }" % " ".join("%d => &self.%s," % (k, a.field) for k, a in enumerate(archs)))
    w("    fn arch_mut(&mut self, a: usize) -> &mut dyn ArchDyn { match a { %s _ => unreachable!() } }" % " ".join("%d => &mut self.%s," % (k, a.field) for k, a in enumerate(archs)))
    w("    fn w_contains(&self, k: Key) -> bool { with_key!(self, k, [%s], |k| self.contains(k)) }" % ", ".join("%d %s" % (i, a.name) for i, a in enumerate(archs)))
    w("    fn w_to_direct(&self, k: Key) -> Option<EntityDirectAny> { with_key!(self, k, [%s], |k| self.to_direct(k).map(|d| d.into_any())) }" % ", ".join("%d %s" % (i, a.name) for i, a in enumerate(archs)))
    w("    fn w_destroy(&mut self, k: Key, form: u8, out: &mut Vec<CVal>) -> bool { match k.typed {")
    w("        None => match k.h { EntP::E(h) => self.destroy(h).is_some(), EntP::D(h) => self.destroy(h).is_some() },")
    for i, a in enumerate(archs):
        w("        Some(%d) => w_destroy_typed::<Self, %s>(self, k, form, out)," % (i, a.name))
    w("        _ => unreachable!() } }")
    for nm, mutq in (("view", "mut "), ("borrow", "")):
        w("    fn w_%s(&%sself, k: Key, form: u8, cb: &mut dyn FnMut(usize, &mut dyn CompDyn)) -> Option<(usize, EntityAny)> { match k.typed {" % (nm, mutq))
        for i, a in enumerate(archs):
            w("        Some(%d) => w_%s_typed::<Self, %s>(self, k, form, cb)," % (i, nm, a.name))
        w("        _ => None } }")
    w("    fn w_create(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8) -> EntityAny { match a { %s _ => unreachable!() } }" % " ".join("%d => w_create_typed::<Self, %s>(self, v, ids, form)," % (k, a.name) for k, a in enumerate(archs)))
    w("    fn w_create_wc(&mut self, a: usize, v: &[u64], ids: &mut Vec<u64>, form: u8, out: &mut Vec<CVal>) -> Option<EntityAny> { match a { %s _ => unreachable!() } }" % " ".join("%d => w_create_wc_typed::<Self, %s>(self, v, ids, form, out)," % (k, a.name) for k, a in enumerate(archs)))
    w("    #[cfg(feature = \"events\")] fn w_events(&self, destroyed: bool, cb: &mut dyn FnMut(Option<EntityAny>, (usize, Option<usize>))) {")
    w("        if destroyed { let mut it = self.iter_destroyed(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }")
    w("        else { let mut it = self.iter_created(); loop { let h = it.size_hint(); let n = it.next(); cb(n.copied(), h); if n.is_none() { let h2 = it.size_hint(); cb(it.next().copied(), h2); break; } } }")
    w("    }")
    w("    #[cfg(feature = \"events\")] fn w_events_form(&self, destroyed: bool, form: u8, n: usize, cb: &mut dyn FnMut(EntityAny)) -> usize {")
    w("        if destroyed { drive(self.iter_destroyed(), form, n, &mut |e| cb(*e)) } else { drive(self.iter_created(), form, n, &mut |e| cb(*e)) } }")
    w("    #[cfg(feature = \"events\")] fn w_clear_events(&mut self) { self.clear_events() }")
    # Queries
    def sig(n, mutq, extra, ret):
        w("    fn %s(&%sself, q: usize, %scb: Cb<'_>) -> %s { let world = self; match q {" % (n, mutq, extra, ret))
    for nm, mutq in (("find", "mut "), ("find_borrow", "")):
        sig("q_" + nm, mutq, "k: Key, refs: u8, ", "Option<u64>")
        for qi, q in enumerate(queries):
            # The closure's explicit return type is exercised in some, inferred in others.
            ret = "-> u64 " if qi % 2 else ""
            clo = "|%s| %s%s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), ret, body(q, "if r == 0 { return 1000 } r as u64 + 1000"))
            def call(key): return "ecs_%s!(world, %s, %s)" % (nm, key, clo)
            w("        %d => match (k.typed, k.h, refs) {" % qi)
            if qi in ref_find:
                w("            (None, EntP::E(h), 1) => %s," % call("&h"))
                w("            (None, EntP::D(h), 1) => %s," % call("&h"))
                w("            (None, EntP::E(mut h), 2) => { let h = &mut h; %s }" % call("h"))
                w("            (None, EntP::D(mut h), 2) => { let h = &mut h; %s }" % call("h"))
            # The entity expression may have effects: it is evaluated exactly once.
            w("            (None, EntP::E(h), _) => { let mut n = 0; let r = %s; once(n); r }" % call("{ n += 1; h }"))
            w("            (None, EntP::D(h), _) => { let mut n = 0; let r = %s; once(n); r }" % call("{ n += 1; h }"))
            if qi in typed_find:
                for ai, a in enumerate(archs):
                    w("            (Some(%d), EntP::E(h), _) => { let h = ke::<%s>(h, k.conv); %s }" % (ai, a.name, call("h")))
                    w("            (Some(%d), EntP::D(h), _) => { let h = kd::<%s>(h, k.conv); %s }" % (ai, a.name, call("h")))
            w("            _ => unreachable!() },")
        w("        _ => unreachable!() } }")
    for nm, mutq in (("iter", "mut "), ("iter_borrow", "")):
        sig("q_" + nm, mutq, "", "()")
        for qi, q in enumerate(queries):
            clo = "|%s| %s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), body(q, STEP))
            w("        %d => { ecs_%s!(world, %s); }" % (qi, nm, clo))
        w("        _ => unreachable!() } }")
        # closures returning ()
        sig("q_%s_unit" % nm, mutq, "", "()")
        for qi, q in enumerate(queries[:2]):
            clo = "|%s| %s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), body(q, "let _ = r;"))
            w("        %d => { ecs_%s!(world, %s); }" % (qi, nm, clo))
        w("        _ => unreachable!() } }")
    sig("q_iter_destroy", "mut ", "", "()")
    for qi, q in enumerate(queries):
        clo = "|%s| %s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), body(q, STEPD))
        w("        %d => { ecs_iter_destroy!(world, %s); }" % (qi, clo))
    w("        _ => unreachable!() } }")
    sig("q_iter_destroy_step", "mut ", "", "()")
    for qi, q in enumerate(queries[:2]):
        clo = "|%s| %s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), body(q, STEP))
        w("        %d => { ecs_iter_destroy!(world, %s); }" % (qi, clo))
    w("        _ => unreachable!() } }")
    sig("q_iter_destroy_unit", "mut ", "", "()")
    for qi, q in enumerate(queries[:2]):
        clo = "|%s| %s" % (", ".join(param_text(i, p) for i, p in enumerate(q)), body(q, "let _ = r;"))
        w("        %d => { ecs_iter_destroy!(world, %s); }" % (qi, clo))
    w("        _ => unreachable!() } }")
    # Sneaky: mutable access to one archetype from inside a mutable query on others
    sig("q_sneaky", "mut ", "kind: u8, k: Key, ", "()")
    for si, (qi, ai) in enumerate(sneaky or []):
        q = queries[qi]
        assert match(archs, q)[ai] is None
        other = "Some((%d, &mut world.%s))" % (ai, archs[ai].field)
        ps = ", ".join(param_text(i, p) for i, p in enumerate(q))
        w("        %d => match kind {" % si)
        w("            0 => { ecs_iter!(world, |%s| %s); }" % (ps, body(q, STEP, other)))
        w("            1 => { ecs_iter_destroy!(world, |%s| %s); }" % (ps, body(q, STEPD, other)))
        w("            _ => { match k.h { EntP::E(h) => { ecs_find!(world, h, |%s| %s); } EntP::D(h) => { ecs_find!(world, h, |%s| %s); } } }" % (ps, body(q, "let _ = r;", other), ps, body(q, "let _ = r;", other)))
        w("        },")
    w("        _ => unreachable!() } }")
    w("}\n")
    cap = ", ".join("%s: c[%d]" % (a.field, i) for i, a in enumerate(archs))
    w("pub fn make(form: u8, c: &[usize]) -> Box<dyn WorldDyn> { match form {")
    w("    0 => Box::new(%s::with_capacity(%sCapacity { %s }))," % (world, world, cap))
    w("    1 => Box::new(%s::new())," % world)
    w("    2 => Box::new(%s::default())," % world)
    w("    _ => Box::new(%s { %s })," % (world, ", ".join("%s: %s::with_capacity(c[%d])" % (a.field, a.name, i) for i, a in enumerate(archs))))
    w("} }")
    src = "\n".join(o) + "\n"
    open(os.path.join(OUT, mod + ".rs"), "w").write(src)

def C(c): return ("C", False, c)
def M(c): return ("C", True, c)
def E(k): return ("E", k)
def D(k): return ("D", k)
def O(*c): return ("O", False, list(c))
def OM(*c): return ("O", True, list(c))

# ---- mix: overlapping, differently laid out components
mix = [
    Arch("ArchMa", ["CBox", "CByte", "CInl", "COdd"]),
    Arch("ArchMb", ["CInl", "CStr", "CZst", "CAli"], 7),
    Arch("ArchMc", ["CByte", "CStr", "CWord", "CPad", "CNil"]),
    Arch("ArchMd", ["CBig", "CVec", "CInl", "CWord"], 200),
    Arch("ArchMe", ["CByte", "CTri"], 3),
    Arch("ArchMf", ["CHuge", "COdd", "CByte"]),
]
qmix = [
    [E("wild"), M("CInl")],
    [D("any"), E("any")],
    [E("any"), C("CByte"), O("CBox", "CStr")],
    [D("wild"), E("wild"), M("CByte")],
    [E("ArchMa"), M("CBox"), C("CByte"), M("CInl"), M("COdd")],
    [D("ArchMb"), E("any"), M("CStr"), M("CAli"), M("CZst")],
    [E("wild"), OM("CBox", "CAli", "CWord")],
    [C("CWord"), E("any"), M("CNil"), D("any")],
    [E("wild"), M("CVec"), M("CBig"), C("CInl"), M("CWord")],
    [C("CInl"), D("wild"), E("ArchMd")],
    [M("CInl")],
    [E("any"), ("X", "CNowhere"), M("CStr"), ("C", False, "CByte", "cfg")],
    [D("ArchMe"), E("ArchMe"), M("CByte")],
    [OM("CBox", "CStr"), C("CByte"), E("wild"), D("any")],
    [M("COdd"), C("CByte"), E("wild")],
    [OM("CTri", "CHuge"), D("wild")],
]
gen_world("mix", "WorldMix", mix, qmix, {0, 1, 3, 6}, {0, 1}, sneaky=[(4, 1), (12, 0), (8, 2)])

# ---- zst: zero-sized components only
zst = [Arch("ArchZa", ["CZst"]), Arch("ArchZb", ["CNil"], 100), Arch("ArchZc", ["CZst", "CNil"])]
qzst = [
    [E("wild"), M("CZst")],
    [D("wild"), E("any")],
    [E("any"), C("CNil"), D("any")],
    [E("ArchZc"), M("CZst"), M("CNil")],
]
gen_world("zst", "WorldZst", zst, qzst, {0, 1}, {0, 1}, sneaky=[(3, 0)])

# ---- wide: up to the default limit of 16
def wn(n, off=0):
    L = "abcdefghijklmnopqrstuvwxyz"
    return ["W%s%s" % (L[i // 26], L[i % 26]) for i in range(off, off + n)]
wide = [
    Arch("ArchWp", wn(16)),
    Arch("ArchWq", wn(11, 8), 41),
    Arch("ArchWr", wn(6, 13), 40),
    Arch("ArchWs", wn(8, 22)),
]  # ids 0, 41, 40, then 41 again would collide -> give it one
wide[3].id = 9
qwide = [
    [E("wild"), M("Wan"), C("Wao")],
    [D("wild"), E("any")],
    [E("any"), OM("Waa", "Waw"), D("any")],
    [E("ArchWp")] + [(M if i % 2 else C)(c) for i, c in enumerate(wn(16))],
    [E("ArchWq")] + [(C if i % 2 else M)(c) for i, c in enumerate(wn(11, 8))],
    [E("wild"), C("Wap"), M("Waq"), OM("Wai", "Was")],
]
qwide[5] = [E("wild"), C("Wap"), M("Waq")]
gen_world("wide", "WorldWide", wide, qwide, {0}, {1}, sneaky=[(3, 1)])

# ---- wide32: needs the 32_components feature
wide32 = [Arch("ArchXa", wn(32)), Arch("ArchXb", wn(17, 5)), Arch("ArchXc", wn(24, 8))]
qw32 = [
    [E("wild"), M("Wan"), C("Wao")],
    [D("wild"), E("any")],
    [E("ArchXa")] + [(M if i % 2 else C)(c) for i, c in enumerate(wn(32))],
    [E("ArchXb")] + [(C if i % 2 else M)(c) for i, c in enumerate(wn(17, 5))],
    [D("any"), E("any"), M("Wbf"), C("Waz")],
]
gen_world("widex", "WorldWideX", wide32, qw32, {0}, {1}, sneaky=[(2, 1)])

# ---- many archetypes, shuffled ids
sets = [["CInl"], ["CByte", "CInl"], ["CWord"], ["CStr", "CWord"], ["CByte"], ["CInl", "CWord", "CByte"],
        ["CStr"], ["CInl", "CStr"], ["CWord", "CByte"], ["CZst"], ["CStr", "CByte"], ["CInl", "CZst"]]
mids = [None, 30, None, 17, 5, None, 90, 254, None, 20, 200, None]
many = [Arch("ArchN" + "abcdefghijkl"[i], s, mids[i]) for i, s in enumerate(sets)]
qmany = [
    [E("wild"), M("CInl")],
    [D("any"), E("any")],
    [E("any"), OM("CStr", "CInl")],
    [E("wild"), C("CByte"), D("wild")],
    [M("CWord"), E("any")],
    [E("ArchNh"), D("ArchNh"), M("CStr")],
]
qmany[2] = [E("any"), OM("CWord", "CZst")]
gen_world("many", "WorldMany", many, qmany, {0}, {1}, sneaky=[(5, 8)])

# ---- solo: one archetype only, with the last id
solo = [Arch("ArchSolo", ["CBox", "CTri"], 255)]
qsolo = [
    [E("wild"), M("CTri")],
    [D("wild"), E("any"), C("CBox")],
    [M("CBox"), M("CTri"), E("ArchSolo"), D("any")],
    [OM("CBox", "CStr"), E("any")],
]
gen_world("solo", "WorldSolo", solo, qsolo, {0, 1, 2}, {0, 1}, sneaky=[])

# ---- cfgs: disabled archetypes and components between the others, explicit component ids, the default world name
cfgs = [
    Arch("ArchCa", ["CInl", "CStr"], None, ["#[cfg(any())] CNowhere", "CInl", "#[cfg(all())] CStr"]),
    Arch("ArchCb", ["CStr", "COdd", "CInl"], 10, ["#[component_id(5)] CStr", "#[cfg(any())] CNowhere", "COdd", "#[component_id(0)] CInl"]),
    Arch("ArchCc", ["CByte", "CInl", "CWord"], None, ["#[component_id(255)] CByte", "#[component_id(1)] CInl", "#[cfg(any())] CNowhere", "CWord"]),
    Arch("ArchCd", ["CWord"], 4, ["CWord", "#[cfg(any())] CNowhere"]),
]
noise = {0: ["#[cfg(any())]\n    ecs_archetype!(ArchGoneA, CInl);"], 1: ["#[cfg(all(any(), all()))]\n    #[archetype_id(77)]\n    ecs_archetype!(ArchGoneB, CStr, CInl);"],
         2: ["#[cfg(any())]\n    ecs_archetype!(ArchGoneC, CNowhere);"]}
qcfgs = [
    [E("wild"), M("CInl")],
    [D("any"), E("any")],
    [E("any"), ("X", "CNowhere"), M("CStr"), ("C", False, "CInl", "cfg")],
    [("X", "Entity<ArchCd>"), E("wild"), M("CWord"), D("wild")],
    [("E", "ArchCb", "#[cfg(all())]"), ("X", "CNowhere"), M("COdd"), M("CStr")],
    [("C", False, "CByte", "cfg"), M("CWord"), D("ArchCc"), E("any")],
]
gen_world("cfgs", "EcsWorld", cfgs, qcfgs, {0, 1, 3}, {0, 1}, sneaky=[(4, 3), (5, 0)], noise=noise)
