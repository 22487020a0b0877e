//! Explicit-state exploration of `UnsizedVec` itself: every operation sequence up to a
//! depth, over a per-family alphabet, each executed on a fresh real vector. The state of
//! the search is what the vector's future behaviour can depend on (kinds of the elements in
//! order, capacities, alignment, offsets); the list it must be equivalent to, the registry of
//! live values and the allocator's record of the heap are the oracles.

use crate::fam::*;
use crate::elem::E;
use crate::rt::*;
use crate::talloc::{self, tracked, untracked};
use emplacable::{Emplacable, EmplacableFn, Emplacer, box_new_with, box_pin_with};
use std::alloc::Layout;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::mem::ManuallyDrop;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

pub type Op = [u8; 5];

pub const NEW: u8 = 1;
pub const DEFAULT: u8 = 2;
pub const WCAP: u8 = 3;
pub const WCAPB: u8 = 4;
pub const WCAPBA: u8 = 5;
pub const FROMVEC: u8 = 6;
pub const COLLECT: u8 = 7;
pub const PRELOAD: u8 = 8;
pub const PUSH: u8 = 10;
pub const PUSHUN: u8 = 11;
pub const PUSHWITH: u8 = 12;
pub const INS: u8 = 13;
pub const INSUN: u8 = 14;
pub const INSWITH: u8 = 15;
pub const POP: u8 = 20;
pub const REM: u8 = 21;
pub const MUT: u8 = 30;
pub const EXT: u8 = 40;
pub const RES: u8 = 50;
pub const SHR: u8 = 60;
pub const TOW: u8 = 70;
pub const POPW: u8 = 71;
pub const SWAP: u8 = 72;
pub const OOB: u8 = 80;
pub const DROPV: u8 = 90;
/// In a history: the next operation is struck by this fault.
pub const FAULT: u8 = 99;

/// Numbers used for counts and bytes. Codes from 200 are relative to the vector.
pub const NUMS: &[usize] = &[
    0, 1, 2, 3, 5, 8, 16, 17, 40, 100,
    isize::MAX as usize, isize::MAX as usize + 1, usize::MAX, 1 << 62,
    isize::MAX as usize - 7, isize::MAX as usize - 15, isize::MAX as usize / 8,
    isize::MAX as usize / 16, isize::MAX as usize / 24, isize::MAX as usize / 3, usize::MAX - 7,
    1 << 61, 1 << 60, isize::MAX as usize - 63, usize::MAX - 1, 300, usize::MAX / 2 - 100,
    // from here on not used as boundaries
    64, 20000,
];
const BOUNDARIES: u8 = 27;
pub const ALIGNS: &[usize] = &[1, 2, 4, 8, 16, 32, 64, 128, 1 << 63, 0, 3, 6, usize::MAX, 1 << 40, 1 << 62];
pub const OOBIDX: &[usize] = &[0, 1, 2, 63, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];

pub const FREE: u8 = 200; // unused elements / bytes
pub const FREE1: u8 = 201; // one more than that
pub const USED: u8 = 210; // used elements / bytes
pub const USED1: u8 = 211;
pub const CAPM1: u8 = 212; // capacity - 1
pub const CAP: u8 = 213;
pub const CAP1: u8 = 214;
pub const OVER: u8 = 215; // isize::MAX - used
pub const OVERU: u8 = 216; // usize::MAX - used
pub const OVERU1: u8 = 217; // usize::MAX - used + 1

fn num(code: u8, used: usize, cap: usize) -> usize {
    match code {
        FREE => cap.wrapping_sub(used),
        FREE1 => cap.wrapping_sub(used).saturating_add(1),
        USED => used,
        USED1 => used + 1,
        CAPM1 => cap.saturating_sub(1),
        CAP => cap,
        CAP1 => cap.saturating_add(1),
        OVER => (isize::MAX as usize).saturating_sub(used),
        OVERU => usize::MAX - used,
        OVERU1 => (usize::MAX - used).saturating_add(1),
        c => NUMS[c as usize],
    }
}

/// Longest vector explored.
pub const LMAX: usize = 4200;
#[derive(Clone, Default)]
pub struct List {
    a: Vec<E>,
    n: usize,
}
impl List {
    pub fn new() -> Self {
        List::default()
    }
    fn ins(&mut self, i: usize, e: E) {
        self.a.insert(i, e);
        self.n += 1;
    }
    fn rem(&mut self, i: usize) -> E {
        self.n -= 1;
        self.a.remove(i)
    }
    fn push(&mut self, e: E) {
        self.a.push(e);
        self.n += 1;
    }
    fn truncate(&mut self, n: usize) {
        self.a.truncate(n);
        self.n = self.a.len();
    }
    pub fn s(&self) -> &[E] {
        &self.a
    }
}

/// Indices above this are written relative to the length.
const LITERAL: usize = 200;
const MIDDLE: u8 = 252;
const LAST2: u8 = 253;
const LAST: u8 = 254;
const END: u8 = 255;
fn at(code: u8, n: usize) -> usize {
    match code {
        END => n,
        LAST => n - 1,
        LAST2 => n - 2,
        MIDDLE => n / 2,
        251 => n / 2 - 1,
        250 => n / 4,
        c => c as usize,
    }
}
/// All indices of short vectors; ends, middle and neighbours of long ones.
fn indices(n: usize, end: bool) -> Vec<u8> {
    let mut v: Vec<u8> = if n <= 8 {
        (0..n as u8).collect()
    } else if n <= LITERAL {
        vec![0, 1, (n / 2) as u8, (n - 1) as u8]
    } else {
        vec![0, 1, 200, MIDDLE, LAST2, LAST]
    };
    if end {
        v.push(if n <= LITERAL { n as u8 } else { END });
    }
    v
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Caps {
    pub len: usize,
    pub cap: usize,
    pub blen: usize,
    pub bcap: usize,
    pub align: usize,
}
fn caps<T: ?Sized>(v: &UnsizedVec<T>) -> Caps {
    Caps { len: v.len(), cap: v.capacity(), blen: v.byte_len(), bcap: v.byte_capacity(), align: v.align() }
}

pub struct Sut<F: Fam> {
    pub v: ManuallyDrop<UnsizedVec<F::T>>,
    pub w: ManuallyDrop<UnsizedVec<F::T>>,
    pub m: List,
    pub mw: List,
    pub next: u8,
    /// Values that are alive outside the vectors: forgotten ones, or (after a fault) leaked ones.
    pub leak: [i32; SLOTS],
    /// Blocks may have been leaked by a fault.
    pub lost_blocks: bool,
}

/// What a step is subjected to.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Normal,
    Panic(u16),
    Oom(u16),
}

#[derive(Default)]
pub struct Fails(pub Vec<Fail>);
impl Fails {
    fn add(&mut self, class: Class, what: impl Into<String>) {
        if self.0.len() < 12 {
            self.0.push(Fail { class, what: what.into() });
        }
    }
    fn put(&mut self, r: Res) {
        if let Err(f) = r {
            if self.0.len() < 12 {
                self.0.push(f);
            }
        }
    }
    fn ok(&self) -> bool {
        self.0.is_empty()
    }
}

macro_rules! chk {
    ($f:expr, $c:expr, $class:expr, $($m:tt)*) => {
        if !$c { $f.add($class, format!($($m)*)); }
    };
}

struct Push<'a, F: Fam>(&'a mut UnsizedVec<F::T>);
impl<F: Fam> Use<F::T> for Push<'_, F> {
    type Out = ();
    fn go<C: EmplacableFn<F::T>>(self, e: Emplacable<F::T, C>) {
        self.0.push_with(e)
    }
}
struct Ins<'a, F: Fam>(&'a mut UnsizedVec<F::T>, usize);
impl<F: Fam> Use<F::T> for Ins<'_, F> {
    type Out = ();
    fn go<C: EmplacableFn<F::T>>(self, e: Emplacable<F::T, C>) {
        self.0.insert_with(self.1, e)
    }
}

#[repr(align(8192))]
struct Buf(#[allow(dead_code)] [u8; 32768]);
static mut BUF: Buf = Buf([0; 32768]);

/// Number of sinks.
pub const SINKS: u8 = 10;
/// Consumes an emplacable in one of the ways a user can.
fn consume<F: Fam, C: EmplacableFn<F::T>>(
    e: Emplacable<F::T, C>, sink: u8, want: E, w: &mut UnsizedVec<F::T>, err: &mut Option<Fail>,
) {
    let mut judge = |ok: bool, how: &str| {
        if !ok && err.is_none() {
            untracked(|| *err = Some(Fail { class: Class::Content, what: format!("value taken out {how} is not the one that was there") }));
        }
    };
    let k = F::KINDS[want.kind as usize];
    match sink {
        0 => {
            let b = box_new_with(e);
            judge(size_of_val(&*b) == k.size && untracked(|| F::same(&b, want)), "as a box");
        }
        1 => drop(e),
        2 => e.forget(),
        3 => {
            let b: Rc<F::T> = e.into();
            judge(size_of_val(&*b) == k.size && untracked(|| F::same(&b, want)), "as an Rc");
        }
        4 => std::mem::forget(e),
        5 => {
            let b: Arc<F::T> = e.into();
            judge(size_of_val(&*b) == k.size && untracked(|| F::same(&b, want)), "as an Arc");
        }
        6 => {
            let mut bad = None;
            let mut done = None;
            {
                let mut f = |l: Layout, meta: <F::T as std::ptr::Pointee>::Metadata,
                             inner: &mut dyn FnMut(*mut std::marker::PhantomData<F::T>)| {
                    tick();
                    if l.size() != k.size || l.align() != k.align {
                        bad = Some(l);
                        return;
                    }
                    // aligned to exactly what is needed
                    let p = unsafe { (&raw mut BUF).cast::<u8>().add(l.align()) };
                    inner(p.cast());
                    done = Some(std::ptr::from_raw_parts_mut::<F::T>(p.cast::<()>(), meta));
                    tick();
                };
                let em = unsafe { Emplacer::<F::T>::from_fn(&mut f) };
                e.into_fn()(em);
            }
            if let Some(l) = bad {
                judge(false, &untracked(|| format!("(layout {l:?} given for {want:?})")));
                return;
            }
            match done {
                Some(p) => {
                    judge(size_of_val(unsafe { &*p }) == k.size && untracked(|| F::same(unsafe { &*p }, want)), "by an emplacer");
                    unsafe { std::ptr::drop_in_place(p) };
                }
                None => judge(false, "by an emplacer (never called)"),
            }
        }
        7 => w.push_with(e),
        8 => w.insert_with(0, e),
        _ => {
            let b = box_pin_with(e);
            judge(size_of_val(&*b) == k.size && untracked(|| F::same(&b, want)), "as a pinned box");
        }
    }
}

struct Hinted<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hinted<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
const PATS: &[&[u8]] = &[&[], &[0], &[1, 0], &[0, 2, 1], &[2, 2], &[1, 1, 1, 1, 1]];
fn pattern<F: Fam>(p: u8, i: usize) -> u8 {
    let p = PATS[p as usize];
    p[i % p.len()] % F::KINDS.len() as u8
}
/// The number of items of pattern `p`, repeated to be `more` longer.
fn items(p: u8, more: u8) -> usize {
    match PATS[p as usize].len() {
        0 => 0,
        n => n + more as usize,
    }
}
fn hinted<F: Fam>(p: u8, hint: u8, more: u8, first: u8) -> impl Iterator<Item = Emplacable<F::T, impl EmplacableFn<F::T>>> {
    let n = items(p, more);
    let h = match hint {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n.saturating_sub(1), Some(n + 3)),
        _ => (40, Some(1)),
    };
    Hinted {
        it: (0..n).map(move |i| {
            let b = untracked(|| F::make(E { kind: pattern::<F>(p, i), id: first.wrapping_add(i as u8), salt: 0 }));
            custom::<F::T>(b)
        }),
        hint: h,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Must {
    Ok,
    Panic,
    Either,
}

/// What a failed reservation gives as its reason.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Reason {
    None,
    Overflow,
    Refused((usize, usize)),
    Odd,
}
fn told(r: Result<(), unsized_vec::TryReserveError>, why: &mut Reason) -> bool {
    let Err(e) = r else { return true };
    untracked(|| {
        let s = format!("{e:?}");
        let num = |k: &str| s.split(k).nth(1).and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok());
        *why = match (num("size: "), num("align: ")) {
            (Some(a), Some(b)) if s.contains("AllocError") => Reason::Refused((a, b)),
            (None, None) if s.contains("CapacityOverflow") => Reason::Overflow,
            _ => Reason::Odd,
        };
        if e.clone() != e {
            *why = Reason::Odd;
        }
    });
    false
}

/// Whether a reservation has to succeed.
fn must<F: Fam>(p: Caps, n: usize, b: usize, a: usize, esz: usize) -> Must {
    if F::CLS == Cls::Unaligned && !a.is_power_of_two() {
        return Must::Panic;
    }
    const SMALL: usize = 8192;
    const HUGE: usize = 1 << 40;
    let zst = F::CLS == Cls::Sized && esz == 0;
    let elems_ok = n <= p.cap - p.len || n <= SMALL;
    let elems_bad = n > p.cap - p.len && n >= HUGE;
    let elems_bad = elems_bad || (zst && n > p.cap - p.len);
    let bytes_ok = zst && b < SMALL || b <= p.bcap - p.blen || b <= SMALL;
    let bytes_bad = !zst && b > p.bcap - p.blen && b >= HUGE;
    let (al_ok, al_bad) = if F::CLS != Cls::Unaligned || a <= p.align {
        (true, false)
    } else if a <= 1 << 10 {
        (true, false)
    } else {
        // a huge alignment is fine as long as no memory is needed
        (p.bcap == 0 && b == 0, p.bcap > 0 || b > 0)
    };
    if elems_bad || bytes_bad || al_bad {
        Must::Panic
    } else if elems_ok && bytes_ok && al_ok {
        Must::Ok
    } else {
        Must::Either
    }
}

/// Whether what is asked for on top of what is in use can certainly be represented, by a
/// margin for the padding.
fn fits<F: Fam>(p: Caps, n: usize, b: usize, a: usize, esz: usize) -> bool {
    let most = isize::MAX as u128;
    let [len, blen, n, b] = [p.len, p.blen, n, b].map(|x| x as u128);
    match F::CLS {
        Cls::Sized => esz > 0 && (len + n) * esz as u128 + 4096 <= most && blen + b + 4096 <= most,
        _ if !a.is_power_of_two() => false,
        _ => (len + n) * 64 <= most && blen + b + (len + 2) * p.align.max(a) as u128 <= most,
    }
}

impl<F: Fam> Sut<F> {
    pub fn fresh() -> Self {
        reset();
        Sut {
            v: ManuallyDrop::new(UnsizedVec::new()),
            w: ManuallyDrop::new(UnsizedVec::new()),
            m: List::new(),
            mw: List::new(),
            next: 1,
            leak: [0; SLOTS],
            lost_blocks: false,
        }
    }
    fn id(&mut self, kind: u8) -> E {
        let e = E { kind, id: self.next, salt: 0 };
        self.next = self.next.wrapping_add(1);
        e
    }
    fn esz() -> usize {
        F::KINDS[0].size
    }

    // ------------------------------------------------------------ observation

    fn starts(v: &UnsizedVec<F::T>) -> Vec<usize> {
        let n = v.len().min(LMAX);
        (0..n).map(|i| unsafe { v.get_unchecked(i) as *const F::T as *const u8 as usize }).collect()
    }

    pub fn key(&self) -> u128 {
        let mut h = [DefaultHasher::new(), DefaultHasher::new()];
        7u8.hash(&mut h[1]);
        for (v, m) in [(&self.v, &self.m), (&self.w, &self.mw)] {
            let c = caps(v);
            let st = Self::starts(v);
            for h in &mut h {
                (c.cap, c.bcap, c.blen, c.align, m.n).hash(h);
                for e in m.s() {
                    h.write_u8(e.kind);
                }
                for s in &st {
                    h.write_usize(s.wrapping_sub(st[0]));
                }
            }
        }
        (h[0].finish() as u128) << 64 | h[1].finish() as u128
    }

    /// Compares a vector with the list it must be equivalent to.
    fn check_vec(v: &UnsizedVec<F::T>, m: &List, f: &mut Fails) {
        let c = caps(v);
        chk!(f, c.len == m.n && v.is_empty() == (m.n == 0), Class::Content, "length {} instead of {}", c.len, m.n);
        if c.len != m.n {
            return;
        }
        chk!(f, v.get(m.n).is_none() && v.get(usize::MAX).is_none(), Class::Oob, "get past the length yields something");
        chk!(f, c.cap >= c.len, Class::Layout, "capacity {} < length {}", c.cap, c.len);
        chk!(f, c.bcap >= c.blen, Class::Layout, "byte capacity {} < byte length {}", c.bcap, c.blen);
        let mut prev_end = None;
        let mut first = 0;
        let mut total = 0usize;
        let mut exact = 0usize;
        let mut block: Option<(usize, usize, usize, bool)> = None;
        for i in 0..m.n {
            let e = m.a[i];
            let k = F::KINDS[e.kind as usize];
            let r = match v.get(i) {
                Some(r) => r,
                None => {
                    f.add(Class::Content, format!("element {i} missing"));
                    f.add(Class::Oob, format!("in-range get({i}) refused"));
                    return;
                }
            };
            let p = r as *const F::T as *const u8 as usize;
            let sz = size_of_val(r);
            if i == 0 {
                first = p;
            }
            chk!(f, p % k.align == 0, Class::Layout, "element {i} ({k:?}) misaligned at {:#x}", p & 0xfff);
            chk!(f, c.align >= k.align, Class::Layout, "alignment {} below that of element {i} ({})", c.align, k.align);
            if let Some(pe) = prev_end {
                chk!(f, p >= pe, Class::Layout, "element {i} overlaps its predecessor (by {})", pe - p);
                if F::CLS != Cls::Unaligned {
                    chk!(f, p == pe, Class::Layout, "gap of {} before element {i}", p as isize - pe as isize);
                }
            }
            prev_end = Some(p + k.size);
            total += (k.size + c.align - 1) & !(c.align - 1);
            exact += k.size;
            if k.size > 0 {
                let inside = match talloc::block_of(p) {
                    Some((s, bs, al, live)) => {
                        let same = block.is_none_or(|b| b.0 == s);
                        block = Some((s, bs, al, live));
                        live && same && p >= s && p + k.size <= s + bs && s == first.min(s)
                    }
                    None => false,
                };
                if !inside {
                    f.add(Class::Layout, format!("element {i} lies outside the vector's block"));
                    f.add(Class::Heap, format!("element {i} lies outside the vector's block"));
                    f.add(Class::Content, format!("element {i} lies outside the vector's block"));
                    return;
                }
            }
            if sz != k.size {
                f.add(Class::Content, format!("element {i} has size {sz} instead of {}", k.size));
                return;
            }
            chk!(f, F::same(r, e), Class::Content, "element {i} is not {e:?}");
        }
        if let Some(pe) = prev_end {
            let last_end = pe - first;
            match F::CLS {
                Cls::Unaligned => {
                    let padded = (last_end + c.align - 1) & !(c.align - 1);
                    chk!(f, c.blen >= last_end && c.blen <= padded, Class::Layout,
                        "byte length {} for elements ending at {last_end} (alignment {})", c.blen, c.align);
                    chk!(f, last_end <= total, Class::Layout, "elements span {last_end} bytes, {total} would do");
                }
                _ => chk!(f, c.blen == exact, Class::Layout, "byte length {} for {exact} bytes of elements", c.blen),
            }
        } else {
            chk!(f, c.blen == 0, Class::Layout, "byte length {} without elements", c.blen);
        }
        if let Some((s, bs, al, _)) = block {
            chk!(f, c.bcap <= bs - (first - s), Class::Layout, "byte capacity {} but the block has {}", c.bcap, bs);
            chk!(f, al >= c.align || F::CLS != Cls::Unaligned, Class::Layout, "alignment {} but the block's is {al}", c.align);
            chk!(f, first == s, Class::Layout, "first element not at the start of the block");
        }
        match F::CLS {
            Cls::Unaligned => {}
            _ => chk!(f, c.align == F::ALIGN, Class::Layout, "alignment {} of a type with alignment {}", c.align, F::ALIGN),
        }
        // iteration shows the same elements, both ways
        let mut n = 0;
        for (i, r) in v.iter().enumerate() {
            n += 1;
            let g = v.get(i).map(|g| (g as *const F::T as *const u8, size_of_val(g)));
            chk!(f, g == Some((r as *const F::T as *const u8, size_of_val(r))), Class::Content, "iteration differs at {i}");
            if n > m.n {
                break;
            }
        }
        chk!(f, n == m.n, Class::Content, "iteration yields {n} elements of {}", m.n);
        let mut n = 0;
        for (i, r) in v.iter().rev().enumerate() {
            n += 1;
            let g = m.n.checked_sub(i + 1).and_then(|j| v.get(j)).map(|g| (g as *const F::T as *const u8, size_of_val(g)));
            chk!(f, g == Some((r as *const F::T as *const u8, size_of_val(r))), Class::Content, "reverse iteration differs at {i}");
            if n > m.n {
                break;
            }
        }
    }

    fn expect_live(&self) -> [i32; SLOTS] {
        let mut x = self.leak;
        for l in [&self.m, &self.mw] {
            for &e in l.s() {
                let (s, t) = F::toks(e);
                if t > 0 {
                    x[s] += t;
                }
            }
        }
        x
    }

    /// All state invariants. `lax`: values may have been leaked (they are absorbed).
    fn check_state(&mut self, lax: bool, f: &mut Fails) {
        Self::check_vec(&self.v, &self.m, f);
        Self::check_vec(&self.w, &self.mw, f);
        f.put(check_heap());
        f.put(check_own());
        let want = self.expect_live();
        let got = &rt().live;
        for s in 0..SLOTS {
            if got[s] != want[s] {
                if lax && got[s] > want[s] {
                    self.leak[s] += got[s] - want[s];
                } else {
                    f.add(Class::Own, format!("value {s}: {} alive, {} expected", got[s], want[s]));
                    break;
                }
            }
        }
    }

    /// Drops the vectors and checks what must be true then.
    pub fn finish(mut self, f: &mut Fails) {
        rt().nlog = 0;
        let (v, w) = unsafe { (ManuallyDrop::take(&mut self.v), ManuallyDrop::take(&mut self.w)) };
        let (e, _) = guarded(move || {
            drop(v);
            drop(w);
        });
        if e != Ended::Ok {
            f.add(Class::Panic, format!("panic while dropping the vector: {}", msg()));
            return;
        }
        let mut want = [0u16; 1024];
        let mut n = 0;
        for l in [&self.m, &self.mw] {
            for &e in l.s() {
                let (s, t) = F::toks(e);
                for _ in 0..t {
                    if n < 1024 {
                        want[n] = s as u16;
                        n += 1;
                    }
                }
            }
        }
        let r = rt();
        if r.log[..r.nlog] != want[..n] {
            let g: Vec<_> = r.log[..r.nlog.min(12)].to_vec();
            f.add(Class::Own, format!("dropping the vectors dropped {g:?}.. instead of {:?}..", &want[..n.min(12)]));
        }
        f.put(check_own());
        for s in 0..SLOTS {
            if r.live[s] != self.leak[s] {
                f.add(Class::Own, format!("value {s}: {} alive after everything is gone, {} forgotten", r.live[s], self.leak[s]));
                break;
            }
        }
        f.put(check_heap());
        if !self.lost_blocks && talloc::live_blocks() > 0 {
            f.add(Class::Heap, format!("leaked block {:?}", talloc::first_live()));
        }
    }

    /// Abandons everything.
    pub fn abandon(self) {}

    // ------------------------------------------------------------ execution

    /// Performs `op`. With `f`, everything the operation promises is checked.
    /// Returns whether an armed fault fired.
    pub fn step(&mut self, op: Op, mode: Mode, mut f: Option<&mut Fails>) -> bool {
        let [c, a, b, d, x] = op;
        let pre = caps(&self.v);
        let prew = caps(&self.w);
        let pm = f.is_some().then(|| (self.m.clone(), self.mw.clone()));
        let pre_st = if f.is_some() { Self::starts(&self.v) } else { vec![] };
        let mut err: Option<Fail> = None;
        let cnt = talloc::counts();
        match mode {
            Mode::Normal => {}
            Mode::Panic(k) => arm(k as u64),
            Mode::Oom(k) => talloc::set_fail(k as u64),
        }
        // Whether the operation has to panic.
        let mut must_panic = Must::Ok;
        // Values that are given away for good.
        let mut gone: Option<E> = None;
        let mut try_ok: Option<bool> = None;
        let mut req = (0usize, 0usize, 0usize);
        let ended;
        {
            // apart from the bookkeeping next to them
            let v: &mut UnsizedVec<F::T> = unsafe { &mut *(&raw mut *self.v) };
            let w: &mut UnsizedVec<F::T> = unsafe { &mut *(&raw mut *self.w) };
            match c {
                NEW | DEFAULT | WCAP | WCAPB | WCAPBA | FROMVEC | COLLECT | DROPV => {
                    let old = std::mem::replace(&mut *v, UnsizedVec::new());
                    let e1 = guarded(move || drop(old)).0;
                    self.m = List::new();
                    req = (num(a, 0, 0), num(b, 0, 0), ALIGNS[(d as usize).min(ALIGNS.len() - 1)]);
                    let (n, by, al) = req;
                    let first = self.next;
                    let (e2, r) = if e1 != Ended::Ok { (e1, None) } else { match c {
                        NEW | DROPV => guarded(|| Some(UnsizedVec::new())),
                        DEFAULT => guarded(|| Some(UnsizedVec::default())),
                        WCAP => guarded(|| Some(UnsizedVec::with_capacity(n))),
                        WCAPB => guarded(|| Some(UnsizedVec::with_capacity_bytes(n, by))),
                        WCAPBA => guarded(|| Some(UnsizedVec::with_capacity_bytes_align(n, by, al))),
                        FROMVEC => guarded(|| F::from_vec(E { kind: a, id: first, salt: 0 }, b as usize, d as usize)),
                        _ => guarded(|| Some(hinted::<F>(a, b, d, first).collect())),
                    } };
                    ended = e2;
                    match c {
                        FROMVEC => {
                            if let Some(Some(_)) = &r {
                                for _ in 0..b {
                                    let e = self.id(a);
                                    self.m.push(e);
                                }
                            }
                        }
                        COLLECT => for i in 0..items(a, d) {
                            let e = self.id(pattern::<F>(a, i));
                            self.m.push(e);
                        },
                        WCAP => must_panic = must::<F>(caps(&UnsizedVec::<F::T>::new()), n, 0, 1, Self::esz()),
                        WCAPB => must_panic = must::<F>(caps(&UnsizedVec::<F::T>::new()), n, by, 1, Self::esz()),
                        WCAPBA => must_panic = must::<F>(Caps { align: 1, ..caps(&UnsizedVec::<F::T>::new()) }, n, by, al, Self::esz()),
                        _ => {}
                    }
                    if let Some(Some(r)) = r {
                        *v = r;
                    }
                }
                PRELOAD => {
                    let n = b as usize | (d as usize) << 8;
                    let first = self.next;
                    let kinds = F::KINDS.len();
                    let kind = |i: usize| match a {
                        0 => (i % kinds) as u8,
                        1 => 0,
                        2 => 1 % kinds as u8,
                        4 => kinds as u8 - 1,
                        _ => ((i / 2) % kinds) as u8,
                    };
                    ended = guarded(|| {
                        for i in 0..n {
                            F::push_un(v, E { kind: kind(i), id: first.wrapping_add(i as u8), salt: 0 });
                        }
                    }).0;
                    for i in 0..n {
                        let e = self.id(kind(i));
                        self.m.push(e);
                    }
                }
                PUSH | PUSHUN | PUSHWITH | INS | INSUN | INSWITH => {
                    let e = E { kind: a, id: self.next, salt: 0 };
                    self.next = self.next.wrapping_add(1);
                    let i = at(b, self.m.n);
                    let bx = (c == PUSH || c == INS).then(|| F::make(e));
                    ended = guarded(|| match c {
                        PUSH => v.push(*bx.unwrap()),
                        INS => v.insert(i, *bx.unwrap()),
                        PUSHUN => F::push_un(v, e),
                        INSUN => F::ins_un(v, i, e),
                        PUSHWITH => with_src::<F, _>(e, d, Push::<F>(v)),
                        _ => with_src::<F, _>(e, d, Ins::<F>(v, i)),
                    }).0;
                    if c < INS {
                        self.m.push(e);
                    } else {
                        self.m.ins(i, e);
                    }
                }
                POP | REM => {
                    let i = if c == POP { self.m.n - 1 } else { at(a, self.m.n) };
                    let sink = if c == POP { a } else { b };
                    let want = self.m.a[i];
                    let er = &mut err;
                    ended = guarded(|| {
                        if c == POP {
                            match v.pop_into() {
                                Some(e) => consume::<F, _>(e, sink, want, w, er),
                                None => *er = Some(Fail { class: Class::Oob, what: "pop of a non-empty vector yields nothing".into() }),
                            }
                        } else {
                            consume::<F, _>(v.remove_into(i), sink, want, w, er)
                        }
                    }).0;
                    if sink != 4 {
                        self.m.rem(i);
                    }
                    match sink {
                        2 => gone = Some(want),
                        7 => self.mw.push(want),
                        8 => self.mw.ins(0, want),
                        _ => {}
                    }
                }
                MUT => {
                    let i = at(a, self.m.n);
                    let mut e = self.m.a[i];
                    e.salt = e.salt.wrapping_add(1);
                    let k = F::KINDS[e.kind as usize];
                    ended = guarded(|| {
                        let r = match b {
                            0 => v.get_mut(i).unwrap(),
                            1 => &mut v[i],
                            2 => v.iter_mut().nth(i).unwrap(),
                            4 => unsafe { v.get_unchecked_mut(i) },
                            _ => (&mut *v).into_iter().rev().last().unwrap(),
                        };
                        untracked(|| F::rewrite(r, e));
                    }).0;
                    let j = if b == 3 { 0 } else { i };
                    if b == 3 {
                        e = E { salt: e.salt, ..self.m.a[0] };
                    }
                    // zero-sized and one-byte values cannot hold a salt
                    let _ = k;
                    self.m.a[j] = e;
                }
                EXT => {
                    let first = self.next;
                    ended = guarded(|| v.extend(hinted::<F>(a, b, d, first))).0;
                    for i in 0..items(a, d) {
                        let e = self.id(pattern::<F>(a, i));
                        self.m.push(e);
                    }
                }
                RES => {
                    // a: family 0..=5, +8: try
                    let fam = a & 7;
                    let n = num(b, pre.len, pre.cap);
                    let by = if fam % 3 == 0 { 0 } else { num(d, pre.blen, pre.bcap) };
                    let al = if fam % 3 == 2 { ALIGNS[x as usize] } else { 1 };
                    req = (n, by, al);
                    must_panic = must::<F>(pre, n, by, al, Self::esz());
                    talloc::watch();
                    let mut reason = Reason::None;
                    let why = &mut reason;
                    let (e, r) = guarded(|| {
                        if a & 8 == 0 {
                            match fam {
                                0 => v.reserve(n),
                                1 => v.reserve_capacity_bytes(n, by),
                                2 => v.reserve_capacity_bytes_align(n, by, al),
                                3 => v.reserve_exact(n),
                                4 => v.reserve_exact_capacity_bytes(n, by),
                                _ => v.reserve_exact_capacity_bytes_align(n, by, al),
                            }
                            true
                        } else {
                            match fam {
                                0 => told(v.try_reserve(n), why),
                                1 => told(v.try_reserve_capacity_bytes(n, by), why),
                                2 => told(v.try_reserve_capacity_bytes_align(n, by, al), why),
                                3 => told(v.try_reserve_exact(n), why),
                                4 => told(v.try_reserve_exact_capacity_bytes(n, by), why),
                                _ => told(v.try_reserve_exact_capacity_bytes_align(n, by, al), why),
                            }
                        }
                    });
                    ended = e;
                    if e == Ended::Panic {
                        reason = match talloc::told() {
                            Some(l) => Reason::Refused(l),
                            None => Reason::Overflow,
                        };
                    }
                    if let Some(f) = f.as_deref_mut() {
                        // whether the allocator turned a request down, and whether one with this layout
                        let l = if let Reason::Refused(l) = reason { l } else { (0, 0) };
                        match (reason, talloc::turned_down(l)) {
                            (Reason::Refused(_), (false, _)) => f.add(Class::Try, "reports that the allocator refused, which it did not"),
                            (Reason::Refused(l), (_, false)) => f.add(Class::Try, format!("reports that the allocator refused {l:?}, which was not asked of it")),
                            (Reason::Overflow, (true, _)) if must_panic == Must::Ok => f.add(Class::Try, "reports a capacity overflow when the allocator refused"),
                            (Reason::Overflow, _) if fits::<F>(pre, n, by, al, Self::esz()) => f.add(Class::Try, "reports a capacity overflow although what was asked for can be represented"),
                            (Reason::Odd, _) => f.add(Class::Try, "an error that says neither capacity overflow nor allocation failure, or does not equal its clone"),
                            _ => {}
                        }
                    }
                    if a & 8 != 0 && F::CLS == Cls::Unaligned && !al.is_power_of_two() {
                        must_panic = Must::Panic;
                        // an error that came up earlier may be reported instead
                        if r == Some(false) && matches!(mode, Mode::Oom(_)) && talloc::fail_fired() {
                            try_ok = r;
                        }
                    } else if a & 8 != 0 {
                        try_ok = r;
                        if let (Some(f), Some(ok)) = (f.as_deref_mut(), r) {
                            let oom = matches!(mode, Mode::Oom(_)) && talloc::fail_fired();
                            chk!(f, ok || oom || must_panic != Must::Ok, Class::Try, "reservation refused: {n} elements, {by} bytes, alignment {al}");
                            chk!(f, !ok || must_panic != Must::Panic, Class::Try, "impossible reservation granted: {n} elements, {by} bytes, alignment {al}");
                            if ok && must_panic != Must::Panic && oom && a & 7 >= 3 {
                                f.add(Class::Try, "reservation granted although the allocator refused");
                            }
                        }
                        must_panic = Must::Ok;
                    }
                }
                SHR => {
                    let n = num(b, pre.len, pre.cap);
                    let by = num(d, pre.blen, pre.bcap);
                    let al = ALIGNS[x as usize];
                    req = (n, by, al);
                    if a == 3 && F::CLS == Cls::Unaligned && !al.is_power_of_two() {
                        must_panic = Must::Panic;
                    }
                    ended = guarded(|| match a {
                        0 => v.shrink_to_fit(),
                        1 => v.shrink_to(n),
                        2 => v.shrink_capacity_bytes_to(n, by),
                        _ => v.shrink_capacity_bytes_align_to(n, by, al),
                    }).0;
                }
                SWAP => {
                    std::mem::swap(v, w);
                    std::mem::swap(&mut self.m, &mut self.mw);
                    ended = Ended::Ok;
                }
                OOB => {
                    let e = E { kind: d, id: self.next, salt: 0 };
                    self.next = self.next.wrapping_add(1);
                    let i = pre.len.saturating_add(OOBIDX[b as usize]);
                    // inserting at the length is in range
                    let j = pre.len.saturating_add(OOBIDX[b as usize].max(1));
                    must_panic = if a < 3 { Must::Ok } else { Must::Panic };
                    let er = &mut err;
                    let mut bad = |s: &str| *er = Some(Fail { class: Class::Oob, what: s.into() });
                    let bx = (a == 5).then(|| F::make(e));
                    ended = guarded(|| match a {
                        0 => if v.get(i).is_some() { untracked(|| bad("get past the length yields something")) },
                        1 => if v.get_mut(i).is_some() { untracked(|| bad("get_mut past the length yields something")) },
                        2 => if pre.len == 0 && v.pop_into().is_some_and(|e| { std::mem::forget(e); true }) {
                            untracked(|| bad("pop of an empty vector yields something"))
                        },
                        3 => { let _ = size_of_val(&v[i]); }
                        4 => { let _ = size_of_val(&mut v[i]); }
                        5 => v.insert(j, *bx.unwrap()),
                        6 => F::ins_un(v, j, e),
                        7 => with_src::<F, _>(e, x, Ins::<F>(v, j)),
                        _ => std::mem::forget(v.remove_into(i)),
                    }).0;
                }
                _ => unreachable!("op {c}"),
            }
        }
        let fired = match mode {
            Mode::Normal => false,
            Mode::Panic(_) => rt().fired,
            Mode::Oom(_) => talloc::fail_fired(),
        };
        arm(0);
        talloc::set_fail_off();
        if let Some(e) = gone {
            if ended == Ended::Ok {
                let (s, t) = F::toks(e);
                self.leak[s] += t;
            }
        }
        let Some(f) = f else {
            return fired;
        };
        let (pm, pmw) = pm.unwrap();
        if let Some(e) = err {
            f.0.push(e);
        }
        if talloc::exhausted() {
            f.add(Class::Panic, "mc: arena exhausted (harness limit)");
        }

        // ---------------- outcome
        let oom = matches!(mode, Mode::Oom(_)) && fired;
        let panicked = ended != Ended::Ok;
        if mode == Mode::Normal || !fired {
            match (must_panic, panicked) {
                (Must::Ok, true) => f.add(Class::Panic, format!("unexpected panic: {}", msg())),
                (Must::Panic, false) => {
                    let class = match c { RES | WCAP | WCAPB | WCAPBA => Class::Try, SHR => Class::Shrink, _ => Class::Oob };
                    f.add(class, "request accepted that must be refused by a panic");
                }
                _ => {}
            }
        }
        let completed = ended == Ended::Ok && try_ok != Some(false);
        if panicked {
            // The contents are those from before or after.
            if mode == Mode::Normal || !fired {
                // refused: nothing may have changed
                self.m = pm;
                self.mw = pmw;
            } else {
                self.settle(c, pm, pmw, f);
            }
            self.lost_blocks |= fired && !matches!(c, RES | SHR | PUSH | PUSHUN | INS | INSUN | WCAP | WCAPB | WCAPBA);
        } else if oom {
            self.lost_blocks |= false;
        }
        let strict_own = matches!(c, RES | SHR | PUSH | PUSHUN | INS | INSUN | OOB) || !panicked;
        if panicked && c == OOB && !fired {
            let now = caps(&self.v);
            chk!(f, now == pre, Class::Oob, "refused request changed {pre:?} to {now:?}");
        }
        let before = f.0.len();
        self.check_state(!strict_own || (panicked && matches!(mode, Mode::Panic(_)) && fired), f);
        if c == OOB {
            // anything wrong after a refused request is that request's doing
            for k in before..f.0.len() {
                let what = f.0[k].what.clone();
                f.add(Class::Oob, what);
            }
        }
        let _ = prew;

        // ---------------- capacities
        let post = caps(&self.v);
        let calls = talloc::calls_since(cnt);
        let ss = Self::esz();
        match c {
            NEW | DEFAULT | DROPV if completed => {
                chk!(f, calls == 0 || c == DROPV || pre.bcap > 0 || pre.cap > 0, Class::Cap, "creating an empty vector made {calls} allocator calls");
                let want_align = if F::CLS == Cls::Unaligned { align_of::<usize>() } else { F::ALIGN };
                chk!(f, post.bcap == 0 && (post.cap == 0 || F::CLS == Cls::Sized && ss == 0) && post.align == want_align, Class::Cap, "empty vector has {post:?}");
            }
            WCAP | WCAPB | WCAPBA if completed => {
                let (n, by, al) = (req.0, if c == WCAP { 0 } else { req.1 }, req.2);
                let (n_want, b_min) = match F::CLS {
                    Cls::Sized if ss == 0 => (usize::MAX, 0),
                    Cls::Sized => (n.max(by.div_ceil(ss)), by.max(n * ss)),
                    _ => (n, by),
                };
                chk!(f, post.cap >= n_want && post.bcap >= b_min, Class::Cap, "asked for {n} elements and {by} bytes, got {post:?}");
                chk!(f, post.cap == n_want, Class::Exact, "asked for {n} elements and {by} bytes, got {post:?}");
                if F::CLS == Cls::Unaligned {
                    let al = if c == WCAPBA { al } else { align_of::<usize>() };
                    chk!(f, post.align == al, Class::Cap, "asked for alignment {al}, got {}", post.align);
                    let pad = by.checked_add(post.align - 1).map(|b| b & !(post.align - 1));
                    chk!(f, pad.is_none_or(|p| post.bcap <= p), Class::Exact, "asked for {by} bytes, got {post:?}");
                } else if F::CLS == Cls::Aligned {
                    chk!(f, post.bcap == by, Class::Exact, "asked for {by} bytes, got {post:?}");
                }
            }
            PUSH | PUSHUN | PUSHWITH | INS | INSUN | INSWITH if completed => {
                let k = F::KINDS[a as usize];
                let fits = pre.cap > pre.len && pre.bcap - pre.blen >= k.size
                    && (F::CLS != Cls::Unaligned || pre.align >= k.align);
                if fits {
                    let quiet_src = !matches!(c, PUSHWITH | INSWITH) || d < GENERIC_SRCS;
                    chk!(f, !quiet_src || calls == 0, Class::Cap, "adding an element that fits made {calls} allocator calls");
                    chk!(f, (post.cap, post.bcap, post.align) == (pre.cap, pre.bcap, pre.align), Class::Cap,
                        "adding an element that fits changed {pre:?} to {post:?}");
                    let upto = if c < INS { pre.len } else { at(b, pre.len) };
                    let st = Self::starts(&self.v);
                    chk!(f, st.len() > upto && st[..upto] == pre_st[..upto], Class::Cap, "adding an element that fits moved the others");
                }
            }
            POP | REM if completed => {
                chk!(f, (post.cap, post.bcap, post.align) == (pre.cap, pre.bcap, pre.align), Class::Cap, "taking an element out changed {pre:?} to {post:?}");
                let sink = if c == POP { a } else { b };
                if matches!(sink, 1 | 2 | 4 | 6) {
                    chk!(f, calls == 0, Class::Cap, "taking an element out made {calls} allocator calls");
                }
            }
            MUT | OOB if a < 3 || c == MUT => chk!(f, calls == 0 && post == pre, Class::Cap, "reading changed {pre:?} to {post:?}"),
            RES => {
                let (n, by, al) = req;
                let zst = F::CLS == Cls::Sized && ss == 0;
                let al_raised = F::CLS == Cls::Unaligned && al > pre.align;
                if completed {
                    chk!(f, post.cap - post.len >= n && (zst || post.bcap - post.blen >= by) && (F::CLS != Cls::Unaligned || post.align >= al),
                        Class::Cap, "reserved {n} elements, {by} bytes, alignment {al}: {pre:?} became {post:?}");
                    chk!(f, post.cap >= pre.cap && post.bcap >= pre.bcap && post.align >= pre.align, Class::Cap,
                        "reserving lowered a capacity: {pre:?} became {post:?}");
                    let enough = pre.cap - pre.len >= n && (zst || pre.bcap - pre.blen >= by) && !al_raised;
                    if enough {
                        let class = if a & 7 >= 3 { Class::Exact } else { Class::Cap };
                        chk!(f, calls == 0 && post == pre, class, "reserving what is available made {calls} calls, {pre:?} became {post:?}");
                    }
                    if a & 7 >= 3 {
                        let n_max = match F::CLS {
                            Cls::Sized if zst => usize::MAX,
                            Cls::Sized => pre.cap.max(pre.len + n.max(by.div_ceil(ss))),
                            _ => pre.cap.max(pre.len + n),
                        };
                        chk!(f, post.cap <= n_max, Class::Exact, "exact reservation of {n} elements, {by} bytes: {pre:?} became {post:?}");
                        if F::CLS != Cls::Sized {
                            let want = (post.blen.saturating_add(by)).max(pre.bcap + (post.blen - pre.blen));
                            let padded = want.checked_add(post.align - 1).map_or(usize::MAX, |b| b & !(post.align - 1));
                            // what was there and what is added are each padded to a raised alignment
                            let padded = if al_raised && pre.bcap > 0 { padded.saturating_add(post.align) } else { padded };
                            let lim = if F::CLS == Cls::Aligned { want } else { padded };
                            chk!(f, post.bcap <= lim, Class::Exact, "exact reservation of {n} elements, {by} bytes: {pre:?} became {post:?}");
                        }
                        if F::CLS == Cls::Unaligned {
                            chk!(f, post.align == pre.align.max(al), Class::Exact, "exact reservation of alignment {al}: {pre:?} became {post:?}");
                        }
                    }
                }
            }
            SHR if completed && !oom => {
                let (n, by, al) = req;
                let max_al = self.m.s().iter().map(|e| F::KINDS[e.kind as usize].align).max().unwrap_or(1);
                let say = |w: &str| format!("{w}: shrink form {a} to {n} elements, {by} bytes, alignment {al}: {pre:?} became {post:?}");
                chk!(f, post.cap <= pre.cap && post.bcap <= pre.bcap && post.align <= pre.align, Class::Shrink, "{}", say("raised"));
                let n = if a == 0 { 0 } else { n };
                let (by, govern_b) = match a { 0 => (0, true), 1 => (0, F::CLS == Cls::Sized), _ => (by, true) };
                match F::CLS {
                    Cls::Sized if ss == 0 => {}
                    Cls::Sized => {
                        let lo = n.max(by.div_ceil(ss)).min(pre.cap).max(pre.len);
                        chk!(f, post.cap == lo, Class::Shrink, "{}", say("element capacity"));
                    }
                    cls => {
                        chk!(f, post.cap == n.min(pre.cap).max(pre.len), Class::Shrink, "{}", say("element capacity"));
                        let al_lo = match a {
                            0 => max_al,
                            3 => al.min(pre.align).max(max_al),
                            _ => pre.align,
                        };
                        if cls == Cls::Unaligned && (a != 3 || al.is_power_of_two()) {
                            chk!(f, post.align == al_lo, Class::Shrink, "{}", say("alignment"));
                        }
                        if govern_b {
                            let lo = by.min(pre.bcap).max(post.blen);
                            let hi = if cls == Cls::Aligned { lo } else { (lo + post.align - 1) & !(post.align - 1) };
                            chk!(f, post.bcap >= lo && post.bcap <= hi, Class::Shrink, "{}", say("byte capacity"));
                        } else {
                            chk!(f, post.bcap == pre.bcap, Class::Shrink, "{}", say("byte capacity"));
                        }
                    }
                }
            }
            _ => {}
        }
        if try_ok == Some(false) || (panicked && c == RES) {
            // refused: usable as before
            chk!(f, post.len == pre.len && post.cap >= pre.cap && post.bcap >= pre.bcap && post.align >= pre.align, Class::Try,
                "refused reservation lowered {pre:?} to {post:?}");
        }
        if oom && c == SHR {
            // it keeps the old capacity or signals the failure
            chk!(f, post.cap <= pre.cap && post.bcap <= pre.bcap && post.align <= pre.align, Class::Shrink, "shrinking raised a capacity");
        }
        fired
    }

    /// After an injected fault: which of the allowed contents does the vector have?
    fn settle(&mut self, c: u8, pm: List, pmw: List, f: &mut Fails) {
        let (qm, qmw) = (std::mem::take(&mut self.m), std::mem::take(&mut self.mw));
        let n = self.v.len();
        let nw = self.w.len();
        let lists_eq = |v: &UnsizedVec<F::T>, m: &List| -> bool {
            let mut g = Fails::default();
            Self::check_vec(v, m, &mut g);
            g.0.iter().all(|x| x.class != Class::Content)
        };
        if c == EXT {
            // some prefix of the additions
            let k = n.clamp(pm.n, qm.n);
            self.m = qm;
            self.m.truncate(k);
            self.mw = pmw;
            return;
        }
        if matches!(c, COLLECT | FROMVEC | WCAP | WCAPB | WCAPBA | NEW | DEFAULT | DROPV) {
            self.m = List::new();
            self.mw = pmw;
            return;
        }
        for (m, mw) in [(&pm, &pmw), (&qm, &qmw), (&qm, &pmw)] {
            if n == m.n && nw == mw.n && lists_eq(&self.v, m) && lists_eq(&self.w, mw) {
                self.m = m.clone();
                self.mw = mw.clone();
                return;
            }
        }
        f.add(Class::Content, format!("contents after the fault are neither those before nor those after (length {n})"));
        self.m = if n == qm.n { qm } else { pm };
        self.mw = if nw == pmw.n { pmw } else { qmw };
    }

    /// The vector must be fully usable: some operations, then all checks again.
    fn epilogue(&mut self, f: &mut Fails) {
        if !f.ok() {
            return;
        }
        let k = F::KINDS.len() as u8;
        let ops: &[Op] = &[
            [PUSH, k - 1, 0, 0, 0],
            [INSWITH, 1 % k, 0, 0, 0],
            [INS, 0, if self.m.n > LITERAL { MIDDLE } else { (self.m.n as u8 + 2) / 2 }, 0, 0],
            [REM, 0, 1, 0, 0],
            [SHR, 0, 0, 0, 0],
            [POP, 0, 0, 0, 0],
        ];
        for &op in ops {
            self.step(op, Mode::Normal, Some(f));
            if !f.ok() {
                for x in &mut f.0 {
                    x.what = format!("afterwards, {}: {}", show(op), x.what);
                }
                return;
            }
        }
    }
}

pub fn show(op: Op) -> String {
    let [c, a, b, d, x] = op;
    let n = |c: u8| match c {
        FREE => "unused".into(),
        FREE1 => "unused+1".into(),
        USED => "used".into(),
        USED1 => "used+1".into(),
        CAPM1 => "cap-1".into(),
        CAP => "cap".into(),
        CAP1 => "cap+1".into(),
        OVER => "isize::MAX-used".into(),
        OVERU => "usize::MAX-used".into(),
        OVERU1 => "usize::MAX-used+1".into(),
        c => format!("{}", NUMS[c as usize]),
    };
    if c == FAULT {
        return match fault_of(op) {
            Mode::Panic(k) => format!("(call {k} of the next operation into caller-supplied code panics)"),
            Mode::Oom(k) => format!("(allocator call {k} of the next operation fails)"),
            Mode::Normal => String::new(),
        };
    }
    let ix = |c: u8| match c {
        END => "len".into(),
        LAST => "len-1".into(),
        LAST2 => "len-2".into(),
        MIDDLE => "len/2".into(),
        251 => "len/2-1".into(),
        250 => "len/4".into(),
        c => c.to_string(),
    };
    let sink = |s: u8| ["box", "drop", "forget()", "Rc", "leak emplacable", "Arc", "emplacer", "push to w", "insert into w", "pinned box"][s as usize];
    let al = |x: u8| ALIGNS[x as usize];
    match c {
        NEW => "new".into(),
        DEFAULT => "default".into(),
        WCAP => format!("with_capacity({})", n(a)),
        WCAPB => format!("with_capacity_bytes({}, {})", n(a), n(b)),
        WCAPBA => format!("with_capacity_bytes_align({}, {}, {})", n(a), n(b), al(d)),
        FROMVEC => format!("from_vec.unsize(kind {a} x{b}, spare {d})"),
        COLLECT => format!("collect(pattern {a} and {d} more, hint {b})"),
        PRELOAD => format!("push x{} (pattern {a})", b as usize | (d as usize) << 8),
        PUSH => format!("push(kind {a})"),
        PUSHUN => format!("push_unsize(kind {a})"),
        PUSHWITH => format!("push_with(kind {a}, source {d})"),
        INS => format!("insert({}, kind {a})", ix(b)),
        INSUN => format!("insert_unsize({}, kind {a})", ix(b)),
        INSWITH => format!("insert_with({}, kind {a}, source {d})", ix(b)),
        POP => format!("pop_into({})", sink(a)),
        REM => format!("remove_into({}, {})", ix(a), sink(b)),
        MUT => format!("write through {b} at {}", ix(a)),
        EXT => format!("extend(pattern {a} and {d} more, hint {b})"),
        RES => {
            let name = ["reserve", "reserve_capacity_bytes", "reserve_capacity_bytes_align", "reserve_exact",
                "reserve_exact_capacity_bytes", "reserve_exact_capacity_bytes_align"][(a & 7) as usize];
            format!("{}{name}({}, {}, {})", if a & 8 != 0 { "try_" } else { "" }, n(b), n(d), al(x))
        }
        SHR => format!("shrink[{}]({}, {}, {})", ["to_fit", "to", "bytes_to", "bytes_align_to"][a as usize], n(b), n(d), al(x)),
        SWAP => "swap(v, w)".into(),
        OOB => format!("out of range [{}](len+{}, kind {d}, source {x})",
            ["get", "get_mut", "pop", "index", "index_mut", "insert", "insert_unsize", "insert_with", "remove_into"][a as usize], OOBIDX[b as usize]),
        DROPV => "drop, new".into(),
        _ => format!("{op:?}"),
    }
}

// ---------------------------------------------------------------- alphabets

pub const A_PUSH: u32 = 1;
pub const A_PUSHALL: u32 = 2;
pub const A_INS: u32 = 4;
pub const A_INSALL: u32 = 8;
pub const A_REM: u32 = 16;
pub const A_REMALL: u32 = 32;
pub const A_MUT: u32 = 64;
pub const A_EXT: u32 = 128;
pub const A_RES: u32 = 256;
pub const A_RESALL: u32 = 512;
pub const A_EXACT: u32 = 1024;
pub const A_SHR: u32 = 2048;
pub const A_SHRALL: u32 = 4096;
pub const A_TWO: u32 = 8192;
pub const A_OOB: u32 = 1 << 14;
pub const A_DROP: u32 = 1 << 15;
pub const A_TRYBOUND: u32 = 1 << 16;
/// Sources a panic can come out of halfway, for fault runs.
pub const A_FAULTSRC: u32 = 1 << 17;
/// A few reservations and shrinks only, to build states with.
pub const A_CAPB: u32 = 1 << 18;
/// Extension by more items than any preallocation would foresee.
pub const A_EXTLONG: u32 = 1 << 19;

fn alphabet<F: Fam>(set: u32, n: usize, nw: usize, out: &mut Vec<Op>) {
    let nk = F::KINDS.len() as u8;
    let srcs = GENERIC_SRCS + F::NATIVES;
    let has = |b: u32| set & b != 0;
    let room = n < LMAX - 8;
    if room {
        for k in 0..nk {
            if has(A_PUSH | A_PUSHALL) {
                out.push([PUSH, k, 0, 0, 0]);
            }
            if has(A_PUSHALL) {
                out.push([PUSHUN, k, 0, 0, 0]);
                for s in 0..srcs {
                    if !(has(A_FAULTSRC) && s == 3) {
                        out.push([PUSHWITH, k, 0, s, 0]);
                    }
                }
            }
            for i in indices(n, true) {
                if has(A_INS | A_INSALL) {
                    out.push([INS, k, i, 0, 0]);
                }
                if has(A_INSALL) {
                    out.push([INSUN, k, i, 0, 0]);
                    for s in 0..srcs {
                        if !(has(A_FAULTSRC) && s == 3) && (s < 3 || s >= GENERIC_SRCS || i == 0) {
                            out.push([INSWITH, k, i, s, 0]);
                        }
                    }
                }
            }
        }
    }
    if n > 0 {
        if has(A_REM | A_REMALL) {
            out.push([POP, 1, 0, 0, 0]);
        }
        if has(A_REMALL) {
            for s in 0..SINKS {
                if s != 1 && (has(A_TWO) || !(s == 7 || s == 8)) {
                    out.push([POP, s, 0, 0, 0]);
                }
            }
        }
        for i in indices(n, false) {
            if has(A_REM | A_REMALL) {
                out.push([REM, i, 1, 0, 0]);
            }
            if has(A_REMALL) {
                for s in 0..SINKS {
                    if s != 1 && (has(A_TWO) || !(s == 7 || s == 8)) {
                        out.push([REM, i, s, 0, 0]);
                    }
                }
            } else if has(A_TWO) {
                out.push([REM, i, 7, 0, 0]);
                out.push([REM, i, 8, 0, 0]);
            }
            if has(A_MUT) {
                for how in 0..5 {
                    if how != 3 || i == 0 {
                        out.push([MUT, i, how, 0, 0]);
                    }
                }
            }
        }
    }
    if has(A_TWO) {
        if n > 0 || nw > 0 {
            out.push([SWAP, 0, 0, 0, 0]);
        }
        if n > 0 && !has(A_REMALL) {
            out.push([POP, 7, 0, 0, 0]);
            out.push([POP, 8, 0, 0, 0]);
        }
    }
    if has(A_EXT) && room {
        for p in 0..PATS.len() as u8 {
            for h in 0..4 {
                out.push([EXT, p, h, 0, 0]);
            }
        }
    }
    if has(A_EXTLONG) && room {
        for (p, h, more) in [(3, 0, 30), (5, 1, 30), (2, 2, 66)] {
            out.push([EXT, p, h, more, 0]);
        }
    }
    if has(A_CAPB) {
        out.push([RES, 3, 2, 0, 0]);
        out.push([RES, 4, 1, 8, 0]);
        if F::CLS == Cls::Unaligned {
            out.push([RES, 5, 0, 0, 4]);
            out.push([RES, 2, 1, 6, 5]);
        } else {
            out.push([RES, 1, 1, 6, 0]);
        }
        out.push([SHR, 0, 0, 0, 0]);
        if F::CLS == Cls::Unaligned {
            out.push([SHR, 3, USED1, USED1, 2]);
        } else {
            out.push([SHR, 2, USED1, USED1, 0]);
        }
    }
    let ns: &[u8] = &[0, 1, 3, 6, FREE, FREE1];
    let bs: &[u8] = &[0, 1, 4, 7, 9, FREE, FREE1];
    let als: &[u8] = if F::CLS == Cls::Unaligned { &[0, 1, 3, 4, 5, 7] } else { &[0, 5] };
    let fams: &[u8] = match (has(A_RES), has(A_EXACT)) {
        (true, true) => &[0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 12, 13],
        (true, false) => &[0, 1, 2, 8, 10],
        (false, true) => &[3, 4, 5, 11, 13],
        _ => &[],
    };
    for &fam in fams {
        for &nn in ns {
            match fam % 8 % 3 {
                0 => out.push([RES, fam, nn, 0, 0]),
                1 => for &b in bs {
                    out.push([RES, fam, nn, b, 0]);
                },
                _ => for &b in bs {
                    for &al in als {
                        out.push([RES, fam, nn, b, al]);
                    }
                },
            }
        }
    }
    if has(A_TRYBOUND) {
        let big: Vec<u8> = (10..BOUNDARIES).chain([OVER, OVERU, OVERU1]).collect();
        for fam in [0u8, 3, 8, 11] {
            for &x in &big {
                out.push([RES, fam, x, 0, 0]);
            }
        }
        for fam in [1u8, 2, 4, 5, 9, 10, 12, 13] {
            let al: &[u8] = if fam % 8 % 3 == 2 { &[0, 3, 7] } else { &[0] };
            for &x in &big {
                for &al in al {
                    out.push([RES, fam, 1, x, al]);
                    out.push([RES, fam, x, 1, al]);
                    out.push([RES, fam, x, x, al]);
                }
            }
        }
        for fam in [2u8, 5, 10, 13] {
            for al in 0..ALIGNS.len() as u8 {
                for nb in [(0u8, 0u8), (0, 1), (1, 0), (1, 5)] {
                    out.push([RES, fam, nb.0, nb.1, al]);
                }
            }
        }
    }
    if has(A_SHR | A_SHRALL) {
        out.push([SHR, 0, 0, 0, 0]);
        let ns: &[u8] = if has(A_SHRALL) { &[0, 1, USED, USED1, CAPM1, CAP, CAP1, 12] } else { &[0, USED1, 12] };
        let bs: &[u8] = if has(A_SHRALL) { &[0, 1, USED, USED1, CAPM1, CAP, CAP1, 12] } else { &[0, USED1, 12] };
        let als: &[u8] = if F::CLS != Cls::Unaligned { &[0, 10] } else if has(A_SHRALL) { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10] } else { &[0, 3, 4] };
        for &n in ns {
            out.push([SHR, 1, n, 0, 0]);
            for &b in bs {
                out.push([SHR, 2, n, b, 0]);
                for &al in als {
                    out.push([SHR, 3, n, b, al]);
                }
            }
        }
    }
    if has(A_OOB) {
        out.push([OOB, 2, 0, 0, 0]);
        for i in 0..OOBIDX.len() as u8 {
            for which in [0, 1, 3, 4, 8] {
                out.push([OOB, which, i, 0, 0]);
            }
            if i > 0 {
                for k in 0..nk {
                    out.push([OOB, 5, i, k, 0]);
                    out.push([OOB, 6, i, k, 0]);
                    if i == 1 || k == 0 {
                        for s in 0..srcs {
                            // 3 is a known finding of C17: with_emplacable_for drops twice
                            if s != 3 {
                                out.push([OOB, 7, i, k, s]);
                            }
                        }
                    }
                }
            }
        }
    }
    if has(A_DROP) {
        out.push([DROPV, 0, 0, 0, 0]);
    }
}

// ---------------------------------------------------------------- search

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: u8,
    pub roots: Vec<Vec<Op>>,
    /// Operations that lead from one explored state to another, by depth.
    pub build: u32,
    pub depth: usize,
    /// Operations judged in every explored state.
    pub judge: u32,
    pub panics: bool,
    pub ooms: bool,
    /// No more than this many elements in explored states.
    pub max_len: usize,
    pub max_states: usize,
    /// Judged only up to this depth (building goes on).
    pub judge_depth: usize,
    /// How often the states that faults lead to are explored in turn.
    pub after: usize,
    /// Only faults up to this depth do.
    pub struck_depth: usize,
    /// This worker judges the states whose number is `.0` modulo `.1`.
    pub shard: (usize, usize),
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub execs: u64,
    pub faults: u64,
    pub other: u64,
    pub truncated: u64,
    pub depth: usize,
    pub fails: Vec<(String, Vec<u8>)>,
    pub samples: Vec<String>,
    /// Failures that are other properties' business, for diagnosis.
    pub others: Vec<String>,
}

/// Whether a broken promise of class `k`, seen at operation `op`, breaks property `p`.
pub fn concerns(p: u8, k: Class, op: Op, mode: Mode) -> bool {
    let reserve = matches!(op[0], RES | WCAP | WCAPB | WCAPBA);
    if k == Class::Panic {
        return true;
    }
    let damage = matches!(k, Class::Content | Class::Own | Class::Heap | Class::Layout);
    match p {
        1 => k == Class::Content,
        2 => k == Class::Own,
        3 => k == Class::Heap,
        4 => k == Class::Layout,
        5 => k == Class::Cap || (reserve && damage),
        6 => k == Class::Shrink || (op[0] == SHR && damage),
        8 => k == Class::Exact || (reserve && op[1] & 7 >= 3 && damage),
        9 => k == Class::Try || (reserve && (damage || k == Class::Cap)),
        11 => mode != Mode::Normal && k != Class::Exact,
        12 => k == Class::Oob,
        14 => damage || matches!(k, Class::Conv),
        18 => mode != Mode::Normal && k != Class::Exact,
        _ => false,
    }
}

/// A fault now or in the past.
fn worst(hist: &[Op], mode: Mode) -> Mode {
    hist.iter().rev().find(|o| o[0] == FAULT).map_or(mode, |&o| if mode == Mode::Normal { fault_of(o) } else { mode })
}

/// Replays `hist` without checks. `None` if it cannot be (a step panicked).
fn replay<F: Fam>(hist: &[Op]) -> Sut<F> {
    let mut s = Sut::<F>::fresh();
    let mut mode = Mode::Normal;
    for &op in hist {
        if op[0] == FAULT {
            mode = fault_of(op);
        } else if mode == Mode::Normal {
            s.step(op, mode, None);
        } else {
            // finds out what it has left
            s.step(op, mode, Some(&mut Fails::default()));
            mode = Mode::Normal;
        }
    }
    s
}
fn fault_op(mode: Mode) -> Op {
    let (m, k) = match mode { Mode::Normal => (0, 0), Mode::Panic(k) => (1, k), Mode::Oom(k) => (2, k) };
    [FAULT, m, k as u8, (k >> 8) as u8, 0]
}
fn fault_of(op: Op) -> Mode {
    let k = op[2] as u16 | (op[3] as u16) << 8;
    match op[1] { 0 => Mode::Normal, 1 => Mode::Panic(k), _ => Mode::Oom(k) }
}

fn encode(fam: u8, plan: &Plan, mode: Mode, hist: &[Op], op: Op, buf: &mut Vec<u8>) {
    buf.clear();
    let (m, k) = match mode { Mode::Normal => (0, 0), Mode::Panic(k) => (1, k), Mode::Oom(k) => (2, k) };
    buf.extend_from_slice(&[b'V', plan.prop, fam, m, k as u8, (k >> 8) as u8]);
    for o in hist {
        buf.extend_from_slice(o);
    }
    buf.extend_from_slice(&op);
}

/// Runs one transition with all checks. Returns (failures, key of the state reached,
/// lengths, whether the fault fired).
pub fn judge<F: Fam>(hist: &[Op], op: Op, mode: Mode) -> (Fails, Option<u128>, bool) {
    let mut s = replay::<F>(hist);
    let mut f = Fails::default();
    let fired = s.step(op, mode, Some(&mut f));
    if mode != Mode::Normal && !fired {
        // same as without the fault
        if f.ok() {
            s.finish(&mut Fails::default());
        }
        return (Fails::default(), None, false);
    }
    let mut key = None;
    let disaster = f.0.iter().any(|x| matches!(x.class, Class::Content | Class::Own | Class::Heap | Class::Layout | Class::Panic));
    if mode == Mode::Normal {
        if !disaster {
            key = Some(s.key());
        }
    } else {
        if !disaster {
            key = Some(s.key());
        }
        s.epilogue(&mut f);
    }
    if f.0.iter().any(|x| matches!(x.class, Class::Content | Class::Own | Class::Heap | Class::Layout | Class::Panic)) {
        s.abandon();
    } else {
        s.finish(&mut f);
    }
    (f, key, fired)
}

pub fn explore<F: Fam>(fam: u8, plan: &Plan, st: &mut Stats) {
    let mut seen: HashSet<u128> = HashSet::new();
    let mut frontier: Vec<Vec<Op>> = Vec::new();
    let mut buf = Vec::new();
    let owned = std::cell::Cell::new(plan.shard.0 == 0);
    let run = |hist: &[Op], op: Op, mode: Mode, st: &mut Stats, buf: &mut Vec<u8>| -> (Option<u128>, bool) {
        encode(fam, plan, mode, hist, op, buf);
        note(buf);
        let (f, key, fired) = judge::<F>(hist, op, mode);
        if !owned.get() {
            return (key, fired);
        }
        st.execs += 1;
        if mode == Mode::Normal {
            st.transitions += 1;
        } else if fired {
            st.faults += 1;
        }
        if !f.ok() {
            let mine = f.0.iter().find(|x| concerns(plan.prop, x.class, op, worst(hist, mode)));
            match mine {
                Some(x) => {
                    if st.fails.len() < 20 {
                        st.fails.push((format!("{:?}: {}", x.class, x.what), buf.clone()));
                    }
                    return (None, fired);
                }
                None => {
                    st.other += 1;
                    if st.others.len() < 8 {
                        let x = &f.0[0];
                        st.others.push(format!("{:?}: {}: {}", x.class, x.what, describe(buf)));
                    }
                }
            }
        }
        (key, fired)
    };
    // states that faults lead to
    let mut struck: Vec<Vec<Op>> = Vec::new();
    let mut seen_struck: HashSet<u128> = HashSet::new();
    for root in &plan.roots {
        // the root itself is a judged history, step by step
        let mut k = None;
        for i in 0..root.len() {
            k = run(&root[..i], root[i], Mode::Normal, st, &mut buf).0;
            if k.is_none() {
                break;
            }
            if (plan.panics || plan.ooms) && owned.get() {
                faults(&root[..i], root[i], plan, true, st, &mut buf, &run, &mut seen_struck, &mut struck);
            }
        }
        if let Some(k) = k {
            if seen.insert(k) {
                frontier.push(root.clone());
            }
        }
    }
    let mut ops: Vec<Op> = Vec::new();
    let mut build: Vec<Op> = Vec::new();
    let mut number = 0usize;
    for depth in 0..=plan.depth {
        let mut next: Vec<Vec<Op>> = Vec::new();
        for h in &frontier {
            if st.fails.len() >= 8 {
                return;
            }
            number += 1;
            owned.set(number % plan.shard.1 == plan.shard.0);
            st.states += owned.get() as u64;
            let (n, nw) = {
                let s = replay::<F>(h);
                let r = (s.m.n, s.mw.n);
                tracked(|| drop(ManuallyDrop::into_inner(s.v)));
                tracked(|| drop(ManuallyDrop::into_inner(s.w)));
                r
            };
            ops.clear();
            build.clear();
            if depth <= plan.judge_depth && owned.get() {
                alphabet::<F>(plan.judge, n, nw, &mut ops);
            }
            if depth < plan.depth {
                alphabet::<F>(plan.build, n, nw, &mut build);
                for o in &build {
                    if !ops.contains(o) {
                        ops.push(*o);
                    }
                }
            }
            if owned.get() && st.samples.len() < 6 && st.states % 37 == 1 {
                st.samples.push(h.iter().map(|&o| show(o)).collect::<Vec<_>>().join("; "));
            }
            for &op in &ops {
                let (key, _) = run(h, op, Mode::Normal, st, &mut buf);
                if (plan.panics || plan.ooms) && owned.get() && depth <= plan.judge_depth {
                    faults(h, op, plan, depth <= plan.struck_depth, st, &mut buf, &run, &mut seen_struck, &mut struck);
                }
                let Some(k) = key else { continue };
                if depth < plan.depth && build.contains(&op) && seen.insert(k) {
                    let long = n + nw > plan.max_len;
                    if next.len() >= plan.max_states || long {
                        st.truncated += 1;
                    } else {
                        let mut h2 = h.clone();
                        h2.push(op);
                        next.push(h2);
                    }
                }
            }
        }
        st.depth = st.depth.max(depth);
        if next.is_empty() {
            break;
        }
        frontier = next;
    }
    for round in 1..=plan.after {
        owned.set(true);
        for h in std::mem::take(&mut struck) {
            if st.fails.len() >= 8 {
                return;
            }
            st.states += 1;
            let s = replay::<F>(&h);
            let (n, nw) = (s.m.n, s.mw.n);
            ops.clear();
            alphabet::<F>(plan.judge, n, nw, &mut ops);
            for &op in &ops {
                run(&h, op, Mode::Normal, st, &mut buf);
                if round < plan.after {
                    faults(&h, op, plan, true, st, &mut buf, &run, &mut seen_struck, &mut struck);
                }
            }
        }
    }
}

/// No operation makes this many calls.
const MAX_FAULT: u16 = 5000;
type Runner<'a> = dyn Fn(&[Op], Op, Mode, &mut Stats, &mut Vec<u8>) -> (Option<u128>, bool) + 'a;
fn faults(h: &[Op], op: Op, plan: &Plan, keep: bool, st: &mut Stats, buf: &mut Vec<u8>, run: &Runner<'_>, seen: &mut HashSet<u128>, struck: &mut Vec<Vec<Op>>) {
    if op[0] == PRELOAD {
        return;
    }
    let mut strike = |mode: Mode, st: &mut Stats| {
        let (key, fired) = run(h, op, mode, st, buf);
        // by different operations, for what cannot be seen of a vector
        let tag = u128::from(op[0]) << 1 | u128::from(matches!(mode, Mode::Oom(_)));
        if let Some(k) = key && keep && plan.after > 0 && fired && seen.insert(k ^ tag) {
            let mut h2 = h.to_vec();
            h2.push(fault_op(mode));
            h2.push(op);
            struck.push(h2);
        }
        fired
    };
    if plan.panics && !matches!(op[0], RES | SHR | OOB | MUT) {
        for k in 1..=MAX_FAULT {
            if !strike(Mode::Panic(k), st) {
                break;
            }
            st.truncated += (k == MAX_FAULT) as u64;
        }
    }
    if plan.ooms && !matches!(op[0], OOB) {
        for k in 1..=MAX_FAULT {
            if !strike(Mode::Oom(k), st) {
                break;
            }
            st.truncated += (k == MAX_FAULT) as u64;
        }
    }
}

fn decode(case: &[u8]) -> (u8, u8, Mode, Vec<Op>) {
    let k = case[4] as u16 | (case[5] as u16) << 8;
    let mode = match case[3] { 0 => Mode::Normal, 1 => Mode::Panic(k), _ => Mode::Oom(k) };
    let ops = case[6..].chunks_exact(5).map(|c| -> Op { c.try_into().unwrap() }).collect();
    (case[1], case[2], mode, ops)
}
pub fn describe(case: &[u8]) -> String {
    let (_, fam, mode, ops) = decode(case);
    let mut s = format!("UnsizedVec of {}: ", FAMILIES[fam as usize]);
    s += &ops.iter().map(|&o| show(o)).collect::<Vec<_>>().join("; ");
    match mode {
        Mode::Normal => {}
        Mode::Panic(k) => s += &format!(" [call {k} of the last operation into caller-supplied code panics]"),
        Mode::Oom(k) => s += &format!(" [allocator call {k} of the last operation fails]"),
    }
    s
}
pub fn rerun(case: &[u8]) -> Vec<String> {
    on!(vec { rerun_here(case) })
}
fn rerun_here(case: &[u8]) -> Vec<String> {
    let (prop, fam, mode, ops) = decode(case);
    let (&op, hist) = ops.split_last().unwrap();
    let (f, _, _): (Fails, Option<u128>, bool) = for_mine!(FAMILIES[fam as usize], F => judge::<F>(hist, op, mode));
    f.0.iter().filter(|x| concerns(prop, x.class, op, worst(hist, mode))).map(|x| format!("{:?}: {}", x.class, x.what)).collect()
}
