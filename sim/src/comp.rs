//! Component types under simulator control: every instance of a tracked type has an instance id in a
//! registry; `Clone`, `Drop` and `Into` are fault points.
use std::cell::{Cell, RefCell};
use crate::alloc::set_in_lib;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct CVal { pub val: u64, pub iid: u64, pub ok: bool }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Kind { pub name: &'static str, pub mask: u64, pub tracked: bool, pub zst: bool }

pub trait Comp: Clone + 'static {
    const KIND: Kind;
    fn make(val: u64) -> Self;
    fn get(&self) -> CVal;
    fn set(&mut self, val: u64);
}
pub trait CompDyn {
    fn dget(&self) -> CVal;
    fn dset(&mut self, val: u64);
    /// Assigns a whole new instance; returns its instance id.
    fn replace(&mut self, val: u64) -> u64;
    fn kind(&self) -> Kind;
}
impl<T: Comp> CompDyn for T {
    fn dget(&self) -> CVal { Comp::get(self) }
    fn dset(&mut self, val: u64) { Comp::set(self, val) }
    fn replace(&mut self, val: u64) -> u64 { *self = T::make(val); Comp::get(self).iid }
    fn kind(&self) -> Kind { T::KIND }
}

// ---------------------------------------------------------------- registry and fault points

pub const FK_CLOSURE: u8 = 0;
pub const FK_CLONE: u8 = 1;
pub const FK_DROP: u8 = 2;
pub const FK_INTO: u8 = 3;
pub const FK_UNWIND: u8 = 4;
pub const N_FK: usize = 5;
pub const FK_NAMES: [&str; N_FK] = ["closure panic", "Clone::clone panic", "Drop::drop panic", "Into conversion panic", "unwind through nested query"];

/// The payload of every panic the simulator injects.
pub struct Injected(pub u8);

pub fn injected(kind: u8) -> ! {
    FIRED.with(|f| { let mut a = f.get(); a[kind as usize] += 1; f.set(a) });
    std::panic::resume_unwind(Box::new(Injected(kind)))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum St { Live, Dropped }

#[derive(Default)]
pub struct Reg {
    pub st: Vec<u8>,          // per iid: 1 live, 2 dropped (iid 0 is never used)
    pub live: i64,
    pub clones: Vec<(u64, u64)>,
    pub log_clones: bool,
    pub errs: Vec<String>,
    pub zst_live: i64,
    pub zst_clones: u64,
    pub drops: u64,
    pub drop_hits: Vec<u64>,  // iids dropped since last taken (only while log_drops)
    pub log_drops: bool,
    pub arm_clone: u64,       // k-th next clone panics (0 = off)
    pub arm_drop: u64,
}

thread_local! {
    pub static REG: RefCell<Reg> = RefCell::new(Reg::default());
    pub static FIRED: Cell<[u64; N_FK]> = const { Cell::new([0; N_FK]) };
}

pub fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R { REG.with(|r| f(&mut r.borrow_mut())) }
pub fn integrity(what: &str) { reg(|r| if r.errs.len() < 16 { r.errs.push(what.to_string()) }) }

/// Marks harness/user code called back from inside the library.
pub struct OutLib(bool);
impl OutLib { #[inline] pub fn new() -> Self { OutLib(set_in_lib(false)) } }
impl Drop for OutLib { #[inline] fn drop(&mut self) { set_in_lib(self.0); } }
pub struct InLib(bool);
impl InLib { #[inline] pub fn new() -> Self { InLib(set_in_lib(true)) } }
impl Drop for InLib { #[inline] fn drop(&mut self) { set_in_lib(self.0); } }

fn new_iid() -> u64 {
    reg(|r| {
        if r.st.is_empty() { r.st.push(0); }
        r.st.push(1);
        r.live += 1;
        (r.st.len() - 1) as u64
    })
}

/// Called by the Clone impls before anything is created. Returns the new instance id.
fn on_clone(from: CVal, kind: Kind) -> u64 {
    let fire = reg(|r| {
        if kind.tracked {
            let known = from.ok && (from.iid as usize) < r.st.len() && r.st[from.iid as usize] == 1;
            if !known && r.errs.len() < 16 { r.errs.push(format!("cloned a {} that is not a live component", kind.name)); }
        }
        if r.arm_clone > 0 { r.arm_clone -= 1; r.arm_clone == 0 } else { false }
    });
    if fire && !std::thread::panicking() { injected(FK_CLONE); }
    if kind.tracked && !kind.zst {
        let to = new_iid();
        reg(|r| if r.log_clones { r.clones.push((from.iid, to)); });
        to
    } else { 0 }
}

fn on_drop(v: CVal, kind: Kind) {
    let fire = reg(|r| {
        r.drops += 1;
        let i = v.iid as usize;
        if !v.ok || i == 0 || i >= r.st.len() {
            if r.errs.len() < 16 { r.errs.push(format!("dropped a {} that never existed (garbage memory)", kind.name)); }
        } else if r.st[i] != 1 {
            if r.errs.len() < 16 { r.errs.push(format!("dropped a {} twice (instance {})", kind.name, i)); }
        } else {
            r.st[i] = 2;
            r.live -= 1;
            if r.log_drops { r.drop_hits.push(v.iid); }
        }
        if r.arm_drop > 0 { r.arm_drop -= 1; r.arm_drop == 0 } else { false }
    });
    if fire && !std::thread::panicking() { injected(FK_DROP); }
}

#[inline]
fn chk(iid: u64, val: u64) -> u64 { crate::rng::mix(iid ^ val.rotate_left(32) ^ 0xC0FFEE) }

// ---------------------------------------------------------------- tracked types

macro_rules! tracked {
    ($t:ident, $name:literal, $mask:expr) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                let _g = OutLib::new();
                let v = Comp::get(self);
                let iid = on_clone(v, Self::KIND);
                Self::build(iid, v.val)
            }
        }
        impl Drop for $t {
            fn drop(&mut self) { let _g = OutLib::new(); on_drop(Comp::get(self), Self::KIND) }
        }
        impl Comp for $t {
            const KIND: Kind = Kind { name: $name, mask: $mask, tracked: true, zst: false };
            fn make(val: u64) -> Self { let i = new_iid(); Self::build(i, val & $mask) }
            fn get(&self) -> CVal { if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 { integrity("misaligned component"); } self.get_() }
            fn set(&mut self, val: u64) { self.set_(val & $mask) }
        }
    };
}

struct Pay { iid: u64, val: u64, c: u64 }
impl Pay {
    fn new(iid: u64, val: u64) -> Self { Pay { iid, val, c: chk(iid, val) } }
    fn get(&self) -> CVal { CVal { val: self.val, iid: self.iid, ok: self.c == chk(self.iid, self.val) } }
    fn set(&mut self, val: u64) { self.val = val; self.c = chk(self.iid, val); }
}

pub struct CBox(Box<Pay>);
impl CBox {
    fn build(iid: u64, val: u64) -> Self { CBox(Box::new(Pay::new(iid, val))) }
    fn get_(&self) -> CVal { self.0.get() }
    fn set_(&mut self, val: u64) { self.0.set(val) }
}
tracked!(CBox, "CBox", u64::MAX);

pub struct CStr(String);
impl CStr {
    fn build(iid: u64, val: u64) -> Self { CStr(format!("{:016x}-{:016x}-{:016x}", iid, val, chk(iid, val))) }
    fn get_(&self) -> CVal {
        // Read as bytes: corrupted memory need not be valid UTF-8.
        let b = self.0.as_bytes();
        let f = |s: usize| -> Option<u64> { let mut x = 0u64; for i in s..s + 16 { let d = (*b.get(i)? as char).to_digit(16)?; x = x << 4 | d as u64; } Some(x) };
        match (b.len(), f(0), f(17), f(34)) {
            (50, Some(iid), Some(val), Some(c)) => CVal { val, iid, ok: c == chk(iid, val) },
            _ => CVal { val: 0, iid: 0, ok: false },
        }
    }
    fn set_(&mut self, val: u64) { let iid = self.get_().iid; self.0 = Self::build_s(iid, val); }
    fn build_s(iid: u64, val: u64) -> String { format!("{:016x}-{:016x}-{:016x}", iid, val, chk(iid, val)) }
}
tracked!(CStr, "CStr", u64::MAX);

/// The length varies with the value, so writes reallocate.
pub struct CVec(Vec<u64>);
impl CVec {
    fn vec(iid: u64, val: u64) -> Vec<u64> { let mut v = vec![iid, val, chk(iid, val)]; for i in 0..(val % 7) { v.push(val ^ i); } v }
    fn build(iid: u64, val: u64) -> Self { CVec(Self::vec(iid, val)) }
    fn get_(&self) -> CVal {
        let v = &self.0;
        if v.len() < 3 || v.len() > 10 { return CVal { val: 0, iid: 0, ok: false }; }
        let ok = v[2] == chk(v[0], v[1]) && v.len() as u64 == 3 + v[1] % 7 && (3..v.len()).all(|i| v[i] == v[1] ^ (i as u64 - 3));
        CVal { val: v[1], iid: v[0], ok }
    }
    fn set_(&mut self, val: u64) { let iid = self.0[0]; self.0 = Self::vec(iid, val); }
}
tracked!(CVec, "CVec", u64::MAX);

pub struct CInl(Pay);
impl CInl {
    fn build(iid: u64, val: u64) -> Self { CInl(Pay::new(iid, val)) }
    fn get_(&self) -> CVal { self.0.get() }
    fn set_(&mut self, val: u64) { self.0.set(val) }
}
tracked!(CInl, "CInl", u64::MAX);

#[repr(align(64))]
pub struct CAli(Pay);
impl CAli {
    fn build(iid: u64, val: u64) -> Self { CAli(Pay::new(iid, val)) }
    fn get_(&self) -> CVal { self.0.get() }
    fn set_(&mut self, val: u64) { self.0.set(val) }
}
tracked!(CAli, "CAli", u64::MAX);

/// Padding bytes, odd sizes.
#[repr(C)]
pub struct CPad { a: u8, iid: u64, b: u16, val: u32, c: u8 }
impl CPad {
    fn build(iid: u64, val: u64) -> Self { let k = chk(iid, val); CPad { a: k as u8, iid, b: (k >> 8) as u16, val: val as u32, c: (k >> 24) as u8 } }
    fn get_(&self) -> CVal { let k = chk(self.iid, self.val as u64); CVal { val: self.val as u64, iid: self.iid, ok: self.a == k as u8 && self.b == (k >> 8) as u16 && self.c == (k >> 24) as u8 } }
    fn set_(&mut self, val: u64) { let k = chk(self.iid, val); self.val = val as u32; self.a = k as u8; self.b = (k >> 8) as u16; self.c = (k >> 24) as u8; }
}
tracked!(CPad, "CPad", u32::MAX as u64);

pub struct CBig([u64; 40]);
impl CBig {
    fn build(iid: u64, val: u64) -> Self { let mut a = [chk(iid, val); 40]; a[0] = iid; a[39] = val; CBig(a) }
    fn get_(&self) -> CVal { let k = chk(self.0[0], self.0[39]); CVal { val: self.0[39], iid: self.0[0], ok: self.0[1..39].iter().all(|x| *x == k) } }
    fn set_(&mut self, val: u64) { let k = chk(self.0[0], val); for x in &mut self.0[1..39] { *x = k; } self.0[39] = val; }
}
tracked!(CBig, "CBig", u64::MAX);

/// 13 bytes, alignment 1.
pub struct COdd([u8; 13]);
impl COdd {
    fn build(iid: u64, val: u64) -> Self { let mut x = COdd([0; 13]); x.0[..5].copy_from_slice(&iid.to_le_bytes()[..5]); x.set_(val); x }
    fn get_(&self) -> CVal {
        let f = |a: usize, n: usize| { let mut b = [0u8; 8]; b[..n].copy_from_slice(&self.0[a..a + n]); u64::from_le_bytes(b) };
        let (iid, val, c) = (f(0, 5), f(5, 5), f(10, 3));
        CVal { val, iid, ok: c == chk(iid, val) & 0xff_ffff }
    }
    fn set_(&mut self, val: u64) {
        let mut b = [0u8; 8];
        b[..5].copy_from_slice(&self.0[..5]);
        let k = chk(u64::from_le_bytes(b), val);
        self.0[5..10].copy_from_slice(&val.to_le_bytes()[..5]);
        self.0[10..].copy_from_slice(&k.to_le_bytes()[..3]);
    }
}
tracked!(COdd, "COdd", 0xff_ffff_ffff);

/// 12 bytes, alignment 4.
pub struct CTri([u32; 3]);
impl CTri {
    fn build(iid: u64, val: u64) -> Self { CTri([iid as u32, val as u32, chk(iid, val) as u32]) }
    fn get_(&self) -> CVal { let (iid, val) = (self.0[0] as u64, self.0[1] as u64); CVal { val, iid, ok: self.0[2] == chk(iid, val) as u32 } }
    fn set_(&mut self, val: u64) { self.0[1] = val as u32; self.0[2] = chk(self.0[0] as u64, val) as u32; }
}
tracked!(CTri, "CTri", u32::MAX as u64);

/// More than a page, and not a whole number of words.
pub struct CHuge([u16; 2053]);
impl CHuge {
    fn build(iid: u64, val: u64) -> Self { let mut x = CHuge([0; 2053]); x.put(0, iid); x.set_(val); x }
    fn put(&mut self, at: usize, v: u64) { for i in 0..4 { self.0[at + i] = (v >> (16 * i)) as u16; } }
    fn take(&self, at: usize) -> u64 { (0..4).fold(0, |x, i| x | (self.0[at + i] as u64) << (16 * i)) }
    fn get_(&self) -> CVal {
        let (iid, val) = (self.take(0), self.take(1020));
        let k = chk(iid, val);
        CVal { val, iid, ok: self.0[2052] == k as u16 && self.0[2047] == (k >> 16) as u16 && (8..2048).step_by(60).all(|i| self.0[i] == k as u16) }
    }
    fn set_(&mut self, val: u64) {
        let k = chk(self.take(0), val);
        for i in (8..2048).step_by(60) { self.0[i] = k as u16; }
        self.0[2052] = k as u16;
        self.0[2047] = (k >> 16) as u16;
        self.put(1020, val);
    }
}
tracked!(CHuge, "CHuge", u64::MAX);

// ---------------------------------------------------------------- zero-sized and untracked types

/// Zero-sized with a Drop impl: counted, since instances have no identity.
pub struct CZst(());
impl Clone for CZst {
    fn clone(&self) -> Self {
        let _g = OutLib::new();
        on_clone(CVal { val: 0, iid: 0, ok: true }, Kind { tracked: false, ..Self::KIND });
        reg(|r| { r.zst_live += 1; r.zst_clones += 1; });
        CZst(())
    }
}
impl Drop for CZst {
    fn drop(&mut self) {
        let _g = OutLib::new();
        let fire = reg(|r| {
            r.zst_live -= 1;
            r.drops += 1;
            if r.zst_live < 0 { r.zst_live = 0; r.errs.push("dropped more CZst instances than exist".to_string()); }
            if r.arm_drop > 0 { r.arm_drop -= 1; r.arm_drop == 0 } else { false }
        });
        if fire && !std::thread::panicking() { injected(FK_DROP); }
    }
}
impl Comp for CZst {
    const KIND: Kind = Kind { name: "CZst", mask: 0, tracked: true, zst: true };
    fn make(_: u64) -> Self { reg(|r| r.zst_live += 1); CZst(()) }
    fn get(&self) -> CVal { CVal { val: 0, iid: 0, ok: true } }
    fn set(&mut self, _: u64) {}
}

#[derive(Clone)]
pub struct CNil;
impl Comp for CNil {
    const KIND: Kind = Kind { name: "CNil", mask: 0, tracked: false, zst: true };
    fn make(_: u64) -> Self { CNil }
    fn get(&self) -> CVal { CVal { val: 0, iid: 0, ok: true } }
    fn set(&mut self, _: u64) {}
}

macro_rules! plain {
    ($t:ident, $inner:ty, $mask:expr) => {
        #[derive(Clone)]
        pub struct $t($inner);
        impl Comp for $t {
            const KIND: Kind = Kind { name: stringify!($t), mask: $mask, tracked: false, zst: false };
            fn make(v: u64) -> Self { $t((v & $mask) as $inner) }
            fn get(&self) -> CVal { CVal { val: self.0 as u64, iid: 0, ok: true } }
            fn set(&mut self, v: u64) { self.0 = (v & $mask) as $inner }
        }
    };
}
macro_rules! plain_arr {
    ($t:ident, $e:ty, $n:literal, $mask:expr) => {
        #[derive(Clone)]
        pub struct $t([$e; $n]);
        impl Comp for $t {
            const KIND: Kind = Kind { name: stringify!($t), mask: $mask, tracked: false, zst: false };
            fn make(v: u64) -> Self { let v = (v & $mask) as $e; $t(std::array::from_fn(|i| v ^ i as $e)) }
            fn get(&self) -> CVal { CVal { val: self.0[0] as u64, iid: 0, ok: self.0.iter().enumerate().all(|(i, x)| *x == self.0[0] ^ i as $e) } }
            fn set(&mut self, v: u64) { *self = Self::make(v) }
        }
    };
}
plain!(CByte, u8, 0xff);
plain!(CWord, u32, 0xffff_ffff);

macro_rules! wtracked { ($($t:ident)*) => { $(
    pub struct $t(Pay);
    impl $t {
        fn build(iid: u64, val: u64) -> Self { $t(Pay::new(iid, val)) }
        fn get_(&self) -> CVal { self.0.get() }
        fn set_(&mut self, val: u64) { self.0.set(val) }
    }
    tracked!($t, "Wide", u64::MAX);
)* } }
wtracked!(Waa Wah Wao Wap Wav Wbc Wbf);
plain!(Wab, u8, 0xff);
plain!(Wac, u16, 0xffff);
plain!(Wad, u32, 0xffff_ffff);
plain!(Wae, u64, u64::MAX);
plain!(Waf, u8, 0xff);
plain!(Wag, u128, u64::MAX);
plain!(Wai, u16, 0xffff);
plain_arr!(Waj, u8, 3, 0xff);
plain!(Wak, u64, u64::MAX);
plain!(Wal, u32, 0xffff_ffff);
plain!(Wam, u8, 0xff);
plain_arr!(Wan, u16, 3, 0xffff);
plain!(Waq, u64, u64::MAX);
plain!(War, u8, 0xff);
plain!(Was, u32, 0xffff_ffff);
plain_arr!(Wat, u16, 9, 0xffff);
plain!(Wau, u128, u64::MAX);
plain!(Waw, u8, 0xff);
plain!(Wax, u64, u64::MAX);
plain_arr!(Way, u32, 5, 0xffff_ffff);
plain!(Waz, u16, 0xffff);
plain!(Wba, u64, u64::MAX);
plain!(Wbb, u8, 0xff);
plain!(Wbd, u32, 0xffff_ffff);
plain!(Wbe, u64, u64::MAX);
