//! The allocator seam. Every block gets red zones; fresh and freed memory is filled with a pattern
//! that is *attractive* to a buggy lookup (as a Slot it reads "live, data index 1, generation 1");
//! every realloc moves; frees are checked (layout, red zones, double free) and quarantined; blocks
//! requested by gecs (and not by the harness or component code) are counted.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

const HDR: usize = 64;
const TAIL: usize = 64;
const MAGIC: u64 = 0x5eed_a110_c8ed_b10c;
const FREED: u64 = 0xdead_f4ee_b10c_0001;
const PAT: u32 = 1;

#[repr(C)]
struct Hdr { magic: u64, size: u64, align: u64, lib: u64 }

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIB_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static LIB_TOTAL: Cell<u64> = const { Cell::new(0) };
    static REALLOCS: Cell<u64> = const { Cell::new(0) };
    static QHEAD: Cell<usize> = const { Cell::new(0) };
    static QUAR: Cell<[(usize, u64); 256]> = const { Cell::new([(0, 0); 256]) };
    static QBYTES: Cell<usize> = const { Cell::new(0) };
}

#[inline]
pub fn set_in_lib(v: bool) -> bool { IN_LIB.try_with(|c| c.replace(v)).unwrap_or(false) }
pub fn lib_blocks() -> i64 { LIB_BLOCKS.with(|c| c.get()) }
pub fn lib_total() -> u64 { LIB_TOTAL.with(|c| c.get()) }
pub fn reallocs() -> u64 { REALLOCS.with(|c| c.get()) }

fn die(what: &str) -> ! {
    // Not a panic: the heap is not trustworthy any more. The parent sees the abort and this line.
    #[cfg(target_arch = "wasm32")]
    crate::w32::diag(&format!("SIMALLOC {}", what));
    #[cfg(not(target_arch = "wasm32"))]
    unsafe {
        let msg = b"SIMALLOC ";
        extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; }
        write(2, msg.as_ptr(), msg.len());
        write(2, what.as_ptr(), what.len());
        write(2, b"\n".as_ptr(), 1);
    }
    std::process::abort()
}

fn off(layout: &Layout) -> usize { HDR.max(layout.align()) }

fn real(layout: &Layout) -> Layout {
    let o = off(layout);
    match Layout::from_size_align(o + ((layout.size() + 7) & !7) + TAIL, layout.align().max(16)) {
        Ok(l) => l,
        Err(_) => die("layout overflow"),
    }
}

unsafe fn fill(p: *mut u8, n: usize) {
    // Only the two ends of very large blocks, for speed.
    const LIM: usize = 1 << 20;
    let mut f = |p: *mut u8, n: usize| {
        let mut i = 0;
        while i + 4 <= n { (p.add(i) as *mut u32).write_unaligned(PAT); i += 4; }
        while i < n { p.add(i).write(PAT as u8); i += 1; }
    };
    if n <= 2 * LIM { f(p, n) } else { f(p, LIM); f(p.add(n - LIM), LIM) }
}

unsafe fn check(p: *mut u8, layout: &Layout) -> *mut Hdr {
    let h = p.sub(HDR) as *mut Hdr;
    if (*h).magic == FREED { die("double free or use of a freed block") }
    if (*h).magic != MAGIC { die("free of a bad pointer or an underflow") }
    if (*h).size != layout.size() as u64 || (*h).align != layout.align() as u64 { die("freed with the wrong layout") }
    let mut q = p.add(layout.size());
    let end = p.add(((layout.size() + 7) & !7) + TAIL);
    // The tail is filled relative to the block's own start so it stays word-aligned.
    let mut i = layout.size();
    while q < end {
        if q.read() != tail_byte(i) { die("red zone after a block was overwritten") }
        q = q.add(1);
        i += 1;
    }
    h
}

#[inline]
fn tail_byte(i: usize) -> u8 { PAT.to_le_bytes()[i & 3] }

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let o = off(&layout);
        let base = System.alloc(real(&layout));
        if base.is_null() { return base; }
        let p = base.add(o);
        fill(p, layout.size());
        let total = ((layout.size() + 7) & !7) + TAIL;
        let mut i = layout.size();
        while i < total { p.add(i).write(tail_byte(i)); i += 1; }
        let lib = IN_LIB.try_with(|c| c.get()).unwrap_or(false);
        (p.sub(HDR) as *mut Hdr).write(Hdr { magic: MAGIC, size: layout.size() as u64, align: layout.align() as u64, lib: lib as u64 });
        if lib {
            let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() + 1));
            let _ = LIB_TOTAL.try_with(|c| c.set(c.get() + 1));
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let h = check(p, &layout);
        if (*h).lib != 0 { let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() - 1)); }
        (*h).magic = FREED;
        fill(p, layout.size());
        let base = p.sub(off(&layout));
        let rl = real(&layout);
        // Quarantine: keep recently freed blocks unmapped from reuse so stale reads see the pattern.
        let small = rl.size() <= 4096;
        let evict = if small {
            QUAR.try_with(|c| {
                let a = unsafe { &mut *c.as_ptr() };
                let i = QHEAD.with(|q| { let i = q.get(); q.set((i + 1) % a.len()); i });
                std::mem::replace(&mut a[i], (base as usize, (rl.size() as u64) << 16 | rl.align() as u64))
            }).unwrap_or((base as usize, (rl.size() as u64) << 16 | rl.align() as u64))
        } else { (base as usize, (rl.size() as u64) << 16 | rl.align() as u64) };
        if evict.0 != 0 {
            System.dealloc(evict.0 as *mut u8, Layout::from_size_align_unchecked((evict.1 >> 16) as usize, (evict.1 & 0xffff) as usize));
        }
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let h = check(p, &layout);
        let lib = (*h).lib;
        if lib != 0 { let _ = REALLOCS.try_with(|c| c.set(c.get() + 1)); }
        let nl = Layout::from_size_align_unchecked(new_size, layout.align());
        let n = self.alloc(nl);
        if n.is_null() { return n; }
        // A block stays gecs's (or the harness's) across a realloc.
        let nh = n.sub(HDR) as *mut Hdr;
        if (*nh).lib != lib {
            let d = lib as i64 - (*nh).lib as i64;
            (*nh).lib = lib;
            let _ = LIB_BLOCKS.try_with(|c| c.set(c.get() + d));
        }
        std::ptr::copy_nonoverlapping(p, n, layout.size().min(new_size));
        self.dealloc(p, layout);
        n
    }
}

/// For sanitizer builds: the system allocator, except that realloc always moves.
pub struct MoveAlloc;
unsafe impl GlobalAlloc for MoveAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 { System.alloc(layout) }
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) { System.dealloc(p, layout) }
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let n = System.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if n.is_null() { return n; }
        std::ptr::copy_nonoverlapping(p, n, layout.size().min(new_size));
        System.dealloc(p, layout);
        n
    }
}
