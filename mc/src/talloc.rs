//! The global allocator of the harness.
//!
//! While `on` is set (only around code under test) every request is served from a bump
//! arena that is rewound between histories: blocks are surrounded by red zones, never
//! reused within a history, filled with a pattern when handed out and when freed, placed
//! at an address with *exactly* the alignment asked for, and always moved by `realloc`.
//! Everything done with a block is checked against the layout it was allocated with.
//! Any single call can be made to fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};

pub const ARENA: usize = 8 << 20;
const RZ: usize = 32;
const RZ_BYTE: u8 = 0xFB;
const FRESH: u8 = 0xA5;
const DEAD: u8 = 0xDD;
const MAX_BLOCKS: usize = 1 << 15;
/// Requests above this are refused, as a real allocator would refuse absurd ones.
pub const REFUSE_ABOVE: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bad {
    ZeroSize,
    DoubleFree,
    FreeUnknown,
    LayoutMismatch { had: (usize, usize), got: (usize, usize) },
    Overrun { off: usize, size: usize },
    WriteAfterFree { off: usize, size: usize },
    ForeignFree,
    BadReallocSize,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub off: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
}

pub struct St {
    base: usize,
    top: usize,
    pub blocks: [Block; MAX_BLOCKS],
    pub n: usize,
    pub bad: [Option<Bad>; 8],
    pub nbad: usize,
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub last: (usize, usize),
    /// Fail the k-th (1-based) alloc or realloc call from now; 0 = never.
    pub fail_at: u64,
    pub failed: bool,
    pub refused: u64,
    /// Sizes and alignments of the requests turned down since `watch`, the last few.
    down: [(usize, usize); 4],
    ndown: usize,
    /// What the allocation-error handler was told.
    told: Option<(usize, usize)>,
    pub exhausted: bool,
}

pub static mut ST: St = St {
    base: 0,
    top: 0,
    blocks: [Block { off: 0, size: 0, align: 0, live: false }; MAX_BLOCKS],
    n: 0,
    bad: [None; 8],
    nbad: 0,
    allocs: 0,
    reallocs: 0,
    frees: 0,
    last: (0, 0),
    fail_at: 0,
    failed: false,
    refused: 0,
    down: [(0, 0); 4],
    ndown: 0,
    told: None,
    exhausted: false,
};

/// Counts the requests made to the system allocator, without serving them from the arena.
pub static COUNT: AtomicBool = AtomicBool::new(false);
pub static mut GRABS: u64 = 0;
pub fn counting<R>(f: impl FnOnce() -> R) -> R {
    let was = COUNT.swap(true, Relaxed);
    let r = f();
    COUNT.store(was, Relaxed);
    r
}
fn grab() {
    if COUNT.load(Relaxed) {
        unsafe { GRABS += 1 }
    }
}

pub static ON: AtomicBool = AtomicBool::new(false);

pub struct TA;

fn st() -> &'static mut St {
    unsafe { &mut *core::ptr::addr_of_mut!(ST) }
}

pub fn init() {
    let l = Layout::from_size_align(ARENA, 1 << 16).unwrap();
    let p = unsafe { System.alloc(l) };
    assert!(!p.is_null());
    st().base = p as usize;
}

/// Rewinds the arena. Nothing allocated in it may be alive (or it is deliberately abandoned).
pub fn reset() {
    let s = st();
    s.top = 0;
    s.n = 0;
    s.nbad = 0;
    s.allocs = 0;
    s.reallocs = 0;
    s.frees = 0;
    s.fail_at = 0;
    s.failed = false;
    s.refused = 0;
    s.exhausted = false;
    if s.base == 0 {
        init();
    }
}

#[inline]
pub fn on() {
    ON.store(true, Relaxed);
}
#[inline]
pub fn off() {
    ON.store(false, Relaxed);
}

/// Runs `f` with tracking on.
#[inline]
pub fn tracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.swap(true, Relaxed);
    let r = f();
    ON.store(was, Relaxed);
    r
}
/// Runs `f` with tracking off.
#[inline]
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    let was = ON.swap(false, Relaxed);
    let count = COUNT.swap(false, Relaxed);
    let r = f();
    ON.store(was, Relaxed);
    COUNT.store(count, Relaxed);
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Counts {
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
}
pub fn counts() -> Counts {
    let s = st();
    Counts { allocs: s.allocs, reallocs: s.reallocs, frees: s.frees }
}
pub fn calls_since(c: Counts) -> u64 {
    let n = counts();
    n.allocs - c.allocs + n.reallocs - c.reallocs + n.frees - c.frees
}
pub fn grabs_since(c: Counts) -> u64 {
    let n = counts();
    n.allocs - c.allocs + n.reallocs - c.reallocs
}

pub fn set_fail(k: u64) {
    let s = st();
    s.fail_at = k;
    s.failed = false;
}
/// Disarms, keeping `fail_fired` readable.
pub fn set_fail_off() {
    st().fail_at = 0;
}
pub fn fail_fired() -> bool {
    st().failed
}
/// Starts to record requests turned down.
pub fn watch() {
    let s = st();
    s.ndown = 0;
    s.told = None;
}
pub fn tell(l: Layout) {
    st().told = Some((l.size(), l.align()));
}
pub fn told() -> Option<(usize, usize)> {
    st().told
}
/// Whether a request was turned down since `watch`, and whether one like `l` was.
pub fn turned_down(l: (usize, usize)) -> (bool, bool) {
    let s = st();
    (s.ndown > 0, (0..s.ndown.min(4)).any(|i| s.down[i] == l))
}
pub fn refused() -> u64 {
    st().refused
}
pub fn exhausted() -> bool {
    st().exhausted
}

fn report(b: Bad) {
    let s = st();
    if s.nbad < s.bad.len() {
        s.bad[s.nbad] = Some(b);
        s.nbad += 1;
    }
}

fn in_arena(p: usize) -> bool {
    let s = st();
    s.base != 0 && p >= s.base && p < s.base + ARENA
}

fn find(off: usize) -> Option<usize> {
    let s = st();
    s.blocks[..s.n].binary_search_by(|b| b.off.cmp(&off)).ok()
}

/// The block containing `addr`, as (start address, size, align, live).
pub fn block_of(addr: usize) -> Option<(usize, usize, usize, bool)> {
    if !in_arena(addr) {
        return None;
    }
    let s = st();
    let off = addr - s.base;
    let i = s.blocks[..s.n].partition_point(|b| b.off <= off);
    if i == 0 {
        return None;
    }
    let b = s.blocks[i - 1];
    (off <= b.off + b.size).then_some((s.base + b.off, b.size, b.align, b.live))
}

impl St {
    fn turned_down(&mut self, size: usize, align: usize) {
        self.down[self.ndown % 4] = (size, align);
        self.ndown += 1;
    }
}

unsafe fn arena_alloc(size: usize, align: usize) -> *mut u8 {
    let s = st();
    if size == 0 {
        report(Bad::ZeroSize);
    }
    // the panic machinery's own allocations are not the operation's
    if s.fail_at > 0 && !std::thread::panicking() {
        s.fail_at -= 1;
        if s.fail_at == 0 {
            s.failed = true;
            s.turned_down(size, align);
            return core::ptr::null_mut();
        }
    }
    if size > REFUSE_ABOVE || align > 1 << 15 {
        s.refused += 1;
        s.turned_down(size, align);
        return core::ptr::null_mut();
    }
    let start = s.base + s.top + if s.n == 0 { RZ } else { 0 };
    // exactly `align`: congruent to `align` modulo `2 * align`
    let mut a = (start + 2 * align - 1) / (2 * align) * (2 * align);
    if a >= start + align {
        a -= align;
    } else {
        a += align;
    }
    let end = a + size + RZ;
    if end > s.base + ARENA || s.n == MAX_BLOCKS {
        s.exhausted = true;
        return core::ptr::null_mut();
    }
    unsafe {
        core::ptr::write_bytes((s.base + s.top) as *mut u8, RZ_BYTE, a - (s.base + s.top));
        core::ptr::write_bytes(a as *mut u8, FRESH, size);
        core::ptr::write_bytes((a + size) as *mut u8, RZ_BYTE, RZ);
    }
    s.blocks[s.n] = Block { off: a - s.base, size, align, live: true };
    s.n += 1;
    s.top = a + size + RZ - s.base;
    a as *mut u8
}

unsafe fn arena_check_free(p: usize, layout: Layout) -> bool {
    let s = st();
    match find(p - s.base) {
        None => {
            report(Bad::FreeUnknown);
            false
        }
        Some(i) => {
            let b = &mut s.blocks[i];
            if !b.live {
                report(Bad::DoubleFree);
                return false;
            }
            if b.size != layout.size() || b.align != layout.align() {
                report(Bad::LayoutMismatch {
                    had: (b.size, b.align),
                    got: (layout.size(), layout.align()),
                });
            }
            true
        }
    }
}

unsafe fn arena_free(p: usize, layout: Layout) {
    unsafe {
        if arena_check_free(p, layout) {
            let s = st();
            let i = find(p - s.base).unwrap();
            let b = &mut s.blocks[i];
            b.live = false;
            core::ptr::write_bytes(p as *mut u8, DEAD, b.size);
        }
    }
}

unsafe impl GlobalAlloc for TA {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if ON.load(Relaxed) {
                let s = st();
                s.allocs += 1;
                s.last = (l.size(), l.align());
                arena_alloc(l.size(), l.align())
            } else {
                grab();
                System.alloc(l)
            }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if in_arena(p as usize) {
                st().frees += 1;
                arena_free(p as usize, l);
            } else {
                if l.size() == 0 || p.is_null() {
                    // never valid, and the system allocator would not notice
                    report(Bad::ForeignFree);
                    return;
                }
                System.dealloc(p, l)
            }
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        unsafe {
            if in_arena(p as usize) {
                let s = st();
                s.reallocs += 1;
                s.last = (new, l.align());
                if !arena_check_free(p as usize, l) {
                    return core::ptr::null_mut();
                }
                if new > isize::MAX as usize - (l.align() - 1) {
                    report(Bad::BadReallocSize);
                    return core::ptr::null_mut();
                }
                let q = arena_alloc(new, l.align());
                if q.is_null() {
                    return q;
                }
                let i = find(p as usize - s.base).unwrap();
                let sz = s.blocks[i].size;
                core::ptr::copy_nonoverlapping(p, q, sz.min(new));
                s.blocks[i].live = false;
                core::ptr::write_bytes(p, DEAD, sz);
                q
            } else if ON.load(Relaxed) {
                // a block made outside tracked code grows inside it: move it into the arena
                let s = st();
                s.reallocs += 1;
                s.last = (new, l.align());
                let q = arena_alloc(new, l.align());
                if !q.is_null() {
                    core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    System.dealloc(p, l);
                }
                q
            } else {
                grab();
                System.realloc(p, l, new)
            }
        }
    }
}

/// First error noticed so far, including damaged red zones and writes to freed blocks.
pub fn check() -> Option<Bad> {
    let s = st();
    if s.nbad > 0 {
        return s.bad[0];
    }
    unsafe {
        let mut prev_end = 0usize;
        for i in 0..s.n {
            let b = s.blocks[i];
            let gap = core::slice::from_raw_parts((s.base + prev_end) as *const u8, b.off - prev_end);
            if gap.iter().any(|&x| x != RZ_BYTE) {
                return Some(Bad::Overrun { off: b.off, size: b.size });
            }
            if !b.live {
                let body = core::slice::from_raw_parts((s.base + b.off) as *const u8, b.size);
                if body.iter().any(|&x| x != DEAD) {
                    return Some(Bad::WriteAfterFree { off: b.off, size: b.size });
                }
            }
            prev_end = b.off + b.size;
        }
        if s.n > 0 {
            let gap = core::slice::from_raw_parts((s.base + prev_end) as *const u8, RZ);
            if gap.iter().any(|&x| x != RZ_BYTE) {
                return Some(Bad::Overrun { off: prev_end, size: 0 });
            }
        }
    }
    None
}

/// Number of blocks handed out so far.
pub fn nblocks() -> usize {
    st().n
}
/// The blocks handed out since there were `n`.
pub fn blocks_since(n: usize) -> &'static [Block] {
    let s = st();
    &s.blocks[n..s.n]
}

pub fn live_blocks() -> usize {
    let s = st();
    s.blocks[..s.n].iter().filter(|b| b.live).count()
}
pub fn first_live() -> Option<(usize, usize)> {
    let s = st();
    s.blocks[..s.n].iter().find(|b| b.live).map(|b| (b.size, b.align))
}
pub fn last_request() -> (usize, usize) {
    st().last
}
