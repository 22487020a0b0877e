//! Emplacables: every source, through every coercion, into every destination, with and
//! without a panic at each call into caller-supplied code and a failure of each allocator
//! call; and the by-value functions.

use crate::cases::*;
use crate::elem::*;
use crate::fam::*;
use crate::rt::*;
use crate::talloc::{self, untracked};
use crate::vecdrv::Stats;
use emplacable::*;
use std::alloc::Layout;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::marker::{PhantomData, Unsize};
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::ptr::Pointee;
use std::rc::Rc;
use std::sync::Arc;
use unsized_vec::UnsizedVec;

// ---------------------------------------------------------------- sources

/// Unsizes an emplacable before using it.
struct Un<T: ?Sized, C>(C, PhantomData<fn(&T)>);
impl<S: Unsize<T>, T: ?Sized, C: Use<T>> Use<S> for Un<T, C> {
    type Out = C::Out;
    fn go<F: EmplacableFn<S>>(self, e: Emplacable<S, F>) -> C::Out {
        self.0.go(e.unsize::<T>())
    }
}
/// Makes emplacables of a sized value and coerces them.
struct Sources<T: ?Sized, C>(u8, C, PhantomData<fn(&T)>);
impl<T: ?Sized, C: Use<T>> SizedUse<T> for Sources<T, C> {
    type Out = C::Out;
    fn go<S: Unsize<T> + 'static>(self, s: S) -> C::Out {
        let un = Un(self.1, PhantomData::<fn(&T)>);
        match self.0 {
            0 => Use::<S>::go(un, Emplacable::<S, _>::from(s)),
            1 => Use::<S>::go(un, Emplacable::<S, _>::from(Box::new(s))),
            2 => {
                let mut v: UnsizedVec<S> = UnsizedVec::new();
                v.push(s);
                let r = un.go(v.remove_into(0));
                drop(v);
                r
            }
            3 => {
                let mut v: UnsizedVec<S> = vec![s].into();
                let r = un.go(v.pop_into().unwrap());
                drop(v);
                r
            }
            4 => un.go(custom::<S>(Box::new(s))),
            5 => {
                // out of one emplacable, into the next
                let s = Emplacable::from(s).get();
                un.go(Emplacable::from(s))
            }
            _ => {
                // the coercion happens inside of a by-value parameter
                let mut un = Some(un);
                with_emplacable_for(s, |e| un.take().unwrap().go(e))
            }
        }
    }
}
const SIZED_SRCS: u8 = 7;
/// Coerced by `unsize!` and passed by value.
struct ByValue<T: ?Sized>(u8, PhantomData<fn(&T)>);
impl<T: ?Sized + 'static> SizedUse<T> for ByValue<T> {
    type Out = Held<T>;
    fn go<S: Unsize<T> + 'static>(self, s: S) -> Held<T> {
        match self.0 {
            0 => Held::Box(box_new(unsize!(s, (S) -> T))),
            1 => Held::Pin(box_pin(unsize!(s, (S) -> T))),
            2 => Held::Rc(rc_new(unsize!(s, (S) -> T))),
            3 => Held::PinRc(rc_pin(unsize!(s, (S) -> T))),
            4 => Held::Arc(arc_new(unsize!(s, (S) -> T))),
            5 => Held::PinArc(arc_pin(unsize!(s, (S) -> T))),
            _ => Held::Box(with_emplacable_for::<T, _, _>(unsize!(s, (S) -> T), |e| box_new_with(e))),
        }
    }
}

const BOX: u8 = 0;
const REMOVE: u8 = 1;
const POP: u8 = 2;
const CUSTOM: u8 = 3;
const WITH: u8 = 4;
const REWRAP: u8 = 5;
const FORWARD: u8 = 6;
const BASE_SRCS: u8 = 7;

/// A family's own sources and destinations.
pub trait EFam: Fam {
    const MORE_SRCS: u8 = 0;
    fn more_src<C: Use<Self::T>>(_e: E, _which: u8, _c: C) -> C::Out {
        unreachable!()
    }
    const MORE_SINKS: u8 = 0;
    /// Whether the value arrived intact.
    fn more_sink<G: EmplacableFn<Self::T>>(_e: Emplacable<Self::T, G>, _which: u8, _want: E) -> bool {
        unreachable!()
    }
}

fn srcs<F: EFam>() -> u8 {
    BASE_SRCS + F::NATIVES + F::MORE_SRCS + if sized_base::<F>() { SIZED_SRCS } else { 0 }
}
fn sized_base<F: EFam>() -> bool {
    !matches!(F::NAME, "str" | "cstr" | "osstr" | "path") && F::CLS != Cls::Sized
}
/// Sources that borrow what they are made from.
fn borrows<F: EFam>(src: u8) -> bool {
    src >= BASE_SRCS && src < BASE_SRCS + F::NATIVES && match F::NAME {
        "slice8" | "slice3" | "slice16a16" | "slicezst" | "sliceplain" => src == BASE_SRCS + 5,
        "sliceu8" => src == BASE_SRCS,
        "str" | "cstr" | "osstr" | "path" => true,
        _ => false,
    }
}
/// Sources that are lists of emplacables: forgetting them leaks what these own.
fn is_list<F: EFam>(src: u8) -> bool {
    let n = src.wrapping_sub(BASE_SRCS);
    let tracked = matches!(F::NAME, "slice8" | "slice3" | "slice16a16" | "slicezst" | "sliceplain");
    tracked && (n == 3 || n == 4 || n >= F::NATIVES && n < F::NATIVES + F::MORE_SRCS)
        || (F::CLS == Cls::Sized || F::NAME == "sliceu8") && n >= F::NATIVES && n < F::NATIVES + F::MORE_SRCS
}
fn src_name<F: EFam>(src: u8) -> String {
    let base = ["a box", "a removal", "a pop", "a hand-written closure", "a by-value parameter", "a re-wrapped closure of a box", "an emplacable forwarding to another"];
    if src < BASE_SRCS {
        return base[src as usize].into();
    }
    let n = src - BASE_SRCS;
    if n < F::NATIVES {
        return format!("{} source {n}", F::NAME);
    }
    let n = n - F::NATIVES;
    if n < F::MORE_SRCS {
        return format!("{} list source {n}", F::NAME);
    }
    format!("a sized value coerced from {}", ["a value", "a box", "a removal", "a pop", "a hand-written closure", "get", "a by-value parameter"][(n - F::MORE_SRCS) as usize])
}

fn with<F: EFam, C: Use<F::T>>(e: E, src: u8, c: C) -> C::Out {
    match src {
        BOX => c.go(F::make(e).into()),
        REMOVE | POP => {
            let mut v: UnsizedVec<F::T> = UnsizedVec::new();
            let last = F::KINDS.len() as u8 - 1;
            let (x, y) = (E { kind: last, id: 201, salt: 0 }, E { kind: 0, id: 202, salt: 0 });
            F::push_un(&mut v, x);
            F::push_un(&mut v, e);
            if src == REMOVE {
                F::push_un(&mut v, y);
            }
            let r = if src == REMOVE { c.go(v.remove_into(1)) } else { c.go(v.pop_into().unwrap()) };
            let n = v.len();
            let end = src == REMOVE && !(n > 0 && F::same(&v[n - 1], y));
            if n == 0 || end || !F::same(&v[0], x) {
                untracked(|| NEIGHBOURS.with(|c| c.set(true)));
            }
            drop(v);
            r
        }
        CUSTOM => c.go(custom::<F::T>(F::make(e))),
        WITH => {
            let b = F::make(e);
            let mut c = Some(c);
            with_emplacable_for(*b, |em| c.take().unwrap().go(em))
        }
        REWRAP => {
            let em: Emplacable<F::T, _> = F::make(e).into();
            c.go(unsafe { Emplacable::from_fn(em.into_fn()) })
        }
        FORWARD => {
            let em: Emplacable<F::T, _> = F::make(e).into();
            c.go(unsafe {
                Emplacable::from_fn(move |er: &mut Emplacer<'_, F::T>| {
                    let mut f = |l: Layout, m: <F::T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<F::T>)| er.into_fn()(l, m, inner);
                    em.into_fn()(Emplacer::from_fn(&mut f))
                })
            })
        }
        n => {
            let n = n - BASE_SRCS;
            if n < F::NATIVES {
                return F::native(e, n, c);
            }
            let n = n - F::NATIVES;
            if n < F::MORE_SRCS {
                return F::more_src(e, n, c);
            }
            F::with_sized(e, Sources(n - F::MORE_SRCS, c, PhantomData::<fn(&F::T)>)).unwrap()
        }
    }
}
thread_local! {
    static NEIGHBOURS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// An exact-size iterator that may not tell the truth.
struct Lies<I>(I, isize);
impl<I: Iterator> Iterator for Lies<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.0.size_hint().0 as isize + self.1).max(0) as usize;
        (n, Some(n))
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Lies<I> {
    fn len(&self) -> usize {
        tick();
        (self.0.len() as isize + self.1).max(0) as usize
    }
}

macro_rules! efam_slice {
    ($($f:ident, $d:ty, [$($i:literal => $len:literal),*];)*) => { $(
        impl EFam for $f {
            const MORE_SRCS: u8 = 8;
            fn more_src<C: Use<[$d]>>(e: E, which: u8, c: C) -> C::Out {
                match which {
                    // lists of emplacables of different making
                    0 => match e.kind { $($i => c.go(Self::arr::<$len>(e).map(|d| Emplacable::from(Box::new(d))).into()),)* _ => unreachable!() },
                    1 => match e.kind { $($i => c.go(Self::arr::<$len>(e).map(|d| custom::<$d>(Box::new(d))).into()),)* _ => unreachable!() },
                    2 => c.go(Emplacable::from_iter(Self::vec(e, 0).into_iter().map(|d| { tick(); Emplacable::from(Box::new(d)) }))),
                    3 => c.go(Emplacable::from_iter(Self::vec(e, 0).into_iter().map(|d| custom::<$d>(Box::new(d))))),
                    4 => c.go(Emplacable::from_iter(Self::vec(e, 0).into_iter().map(|d| Emplacable::<$d, _>::from(Box::new(d))).collect::<Vec<_>>())),
                    5 => match e.kind { $($i => {
                        let em: Emplacable<[$d; $len], _> = Self::arr::<$len>(e).map(Emplacable::from).into();
                        c.go(em.into())
                    })* _ => unreachable!() },
                    6 => c.go(Emplacable::from_iter(Lies(Self::vec(e, 0).into_iter().map(Emplacable::from), 0))),
                    _ => {
                        // shared: the elements are cloned out of a borrowed boxed slice
                        let b: Box<[$d]> = Self::vec(e, 0).into();
                        let em = Emplacable::<[$d], _>::from(&*b);
                        let r = c.go(em);
                        drop(b);
                        r
                    }
                }
            }
            const MORE_SINKS: u8 = 3;
            fn more_sink<G: EmplacableFn<[$d]>>(e: Emplacable<[$d], G>, which: u8, want: E) -> bool {
                let k = Self::KINDS[want.kind as usize];
                let v: Vec<$d> = match which {
                    0 => e.into_vec(),
                    1 => e.into(),
                    _ => {
                        // by way of another emplacable, borrowed and cloned
                        let v: Vec<$d> = e.into();
                        Emplacable::<[$d], _>::from(&v[..]).into_vec()
                    }
                };
                let cap = size_of::<$d>() == 0 || v.capacity() * size_of::<$d>() == k.size;
                Self::same(&v, want) && cap
            }
        }
    )* };
}
efam_slice! {
    L8, D<8, u64>, [0 => 0, 1 => 1, 2 => 2, 3 => 5, 4 => 40];
    L3, D<3, u8>, [0 => 0, 1 => 1, 2 => 2, 3 => 5, 4 => 100];
    L16, D<16, Al16>, [0 => 0, 1 => 1, 2 => 3];
    LZ, D<0, u8>, [0 => 0, 1 => 1, 2 => 3];
    LP, P<4, u32>, [0 => 0, 1 => 1, 2 => 2, 3 => 5];
}
macro_rules! efam_sized {
    ($($f:ident, $d:ty;)*) => { $(
        impl EFam for $f {
            const MORE_SRCS: u8 = 2;
            fn more_src<C: Use<$d>>(e: E, which: u8, c: C) -> C::Out {
                let x = <$d>::new(e.id, e.salt);
                match which {
                    0 => {
                        let a: Emplacable<[$d; 1], _> = [custom::<$d>(Box::new(x))].into();
                        let [x] = a.get();
                        c.go(x.into())
                    }
                    _ => {
                        let v: Vec<$d> = std::iter::once(custom::<$d>(Box::new(x))).collect();
                        let [x]: [$d; 1] = v.try_into().ok().unwrap();
                        c.go(x.into())
                    }
                }
            }
            const MORE_SINKS: u8 = 9;
            fn more_sink<G: EmplacableFn<$d>>(e: Emplacable<$d, G>, which: u8, want: E) -> bool {
                match which {
                    0 => Self::same(&e.get(), want),
                    1 => {
                        let v: Vec<$d> = std::iter::once(e).collect();
                        v.len() == 1 && Self::same(&v[0], want)
                    }
                    2 => {
                        let mut v: Vec<$d> = Vec::with_capacity(1);
                        v.extend([e]);
                        v.len() == 1 && Self::same(&v[0], want)
                    }
                    3 => {
                        let a: Emplacable<[$d; 1], _> = [e].into();
                        Self::same(&a.get()[0], want)
                    }
                    4 => {
                        let a: Emplacable<[$d], _> = [e].into();
                        let v = a.into_vec();
                        v.len() == 1 && Self::same(&v[0], want)
                    }
                    5 => {
                        let b = box_new_with(Emplacable::from_iter([e]));
                        b.len() == 1 && Self::same(&b[0], want)
                    }
                    6 => {
                        let b: Box<dyn Tr> = box_new_with(e.unsize());
                        b.is_(want.id, want.salt) && b.shape() == (size_of::<$d>(), align_of::<$d>())
                    }
                    7 => {
                        let b: Rc<dyn Tr> = e.unsize().into();
                        b.is_(want.id, want.salt) && b.shape() == (size_of::<$d>(), align_of::<$d>())
                    }
                    _ => {
                        let mut v: UnsizedVec<dyn Tr> = UnsizedVec::new();
                        v.push_with(e.unsize());
                        v.len() == 1 && v[0].is_(want.id, want.salt) && v[0].shape() == (size_of::<$d>(), align_of::<$d>())
                    }
                }
            }
        }
    )* };
}
efam_sized! { S8, D<8, u64>; S1, D<1, u8>; S3, D<3, u8>; S16, D<16, Al16>; SZ, D<0, u8>; SP, P<4, u32>; }
impl EFam for LU8 {
    const MORE_SRCS: u8 = 2;
    fn more_src<C: Use<[u8]>>(e: E, which: u8, c: C) -> C::Out {
        let n = Self::KINDS[e.kind as usize].size;
        let em = (0..n).map(|j| Emplacable::from(pat(e.id, e.salt, j)));
        match which {
            0 => c.go(Emplacable::from_iter(em)),
            _ => c.go(Emplacable::from_iter(em.collect::<Vec<_>>())),
        }
    }
    const MORE_SINKS: u8 = 2;
    fn more_sink<G: EmplacableFn<[u8]>>(e: Emplacable<[u8], G>, which: u8, want: E) -> bool {
        let v: Vec<u8> = if which == 0 { e.into_vec() } else { e.into() };
        Self::same(&v, want)
    }
}
impl EFam for STR {
    const MORE_SRCS: u8 = 0;
    const MORE_SINKS: u8 = 6;
    fn more_sink<G: EmplacableFn<str>>(e: Emplacable<str, G>, which: u8, want: E) -> bool {
        let is = |b: &[u8]| untracked(|| std::str::from_utf8(b).is_ok_and(|s| Self::same(s, want)));
        match which {
            0 => is(e.into_string().as_bytes()),
            1 => is(String::from(e).as_bytes()),
            2 => is(&box_new_with(Emplacable::<[u8], _>::from(e))),
            3 => is(&Emplacable::<[u8], _>::from(e).into_vec()),
            4 => is(&Rc::<[u8]>::from(Emplacable::<[u8], _>::from(e))),
            _ => {
                let mut v: UnsizedVec<[u8]> = UnsizedVec::new();
                v.push_with(e.into());
                v.len() == 1 && is(&v[0])
            }
        }
    }
}
impl EFam for CSTR {
    const MORE_SINKS: u8 = 1;
    fn more_sink<G: EmplacableFn<CStr>>(e: Emplacable<CStr, G>, _: u8, want: E) -> bool {
        Self::same(&CString::from(e), want)
    }
}
impl EFam for OSSTR {
    const MORE_SINKS: u8 = 1;
    fn more_sink<G: EmplacableFn<OsStr>>(e: Emplacable<OsStr, G>, _: u8, want: E) -> bool {
        Self::same(&OsString::from(e), want)
    }
}
impl EFam for PATH {
    const MORE_SINKS: u8 = 1;
    fn more_sink<G: EmplacableFn<Path>>(e: Emplacable<Path, G>, _: u8, want: E) -> bool {
        Self::same(&PathBuf::from(e), want)
    }
}
impl EFam for DYN {}
impl EFam for DYNB {}
impl EFam for DYNH {}
impl EFam for WB {}
impl EFam for WD {}

// ---------------------------------------------------------------- destinations

pub enum Held<T: ?Sized> {
    Box(Box<T>),
    Pin(Pin<Box<T>>),
    Rc(Rc<T>),
    PinRc(Pin<Rc<T>>),
    Arc(Arc<T>),
    PinArc(Pin<Arc<T>>),
}
impl<T: ?Sized> Held<T> {
    fn get(&self) -> &T {
        match self {
            Held::Box(b) => b,
            Held::Pin(b) => b,
            Held::Rc(b) => b,
            Held::PinRc(b) => b,
            Held::Arc(b) => b,
            Held::PinArc(b) => b,
        }
    }
}

const K_BOX: u8 = 0;
const K_DROP: u8 = 8;
const K_FORGET: u8 = 9;
const K_LEAK: u8 = 10;
const K_EMPL: u8 = 11;
const K_NEVER: u8 = 12;
const K_NULL: u8 = 13;
const K_PUSH: u8 = 14;
const K_INS: u8 = 15;
const K_COLL: u8 = 16;
const BASE_SINKS: u8 = 17;
const SINK_NAMES: [&str; BASE_SINKS as usize] = [
    "box_new_with", "box_pin_with", "rc_new_with", "rc_pin_with", "arc_new_with", "arc_pin_with", "Rc::from", "Arc::from",
    "drop", "forget", "mem::forget", "an emplacer", "an emplacer that ignores it", "an emplacer that drops it",
    "push_with", "insert_with(0)", "collect",
];

#[repr(align(8192))]
struct Buf(#[allow(dead_code)] [u8; 32768]);
static mut BUF: Buf = Buf([0; 32768]);

/// What was seen at the destination.
#[derive(Default)]
struct Obs {
    fails: Vec<Fail>,
    /// Blocks there were before the destination was reached.
    blocks: usize,
    reached: bool,
    /// The destination had the value, whole.
    delivered: bool,
}
impl Obs {
    fn add(&mut self, class: Class, what: &str) {
        untracked(|| self.fails.push(Fail { class, what: what.into() }));
    }
}

struct Sink<'a, F> {
    sink: u8,
    want: E,
    normal: bool,
    /// The source allocates while it is consumed.
    lazy: bool,
    o: &'a mut Obs,
    f: PhantomData<fn(&F)>,
}
impl<F: EFam> Sink<'_, F> {
    /// Blocks the destination may have allocated: one of the value's own layout, and
    /// `extra` others.
    fn allocated(&mut self, extra: usize) {
        let k = F::KINDS[self.want.kind as usize];
        let new = talloc::blocks_since(self.o.blocks);
        let exact = new.iter().filter(|b| k.size > 0 && (b.size, b.align) == (k.size, k.align)).count();
        if self.normal && !self.lazy && new.len() > (exact.min(1) + extra) {
            self.o.add(Class::Heap, &format!("the destination of {k:?} allocated {:?}", new.iter().map(|b| (b.size, b.align)).collect::<Vec<_>>()));
        }
    }
    fn judge(&mut self, v: &F::T, how: &str) {
        let k = F::KINDS[self.want.kind as usize];
        self.o.delivered = true;
        if (v as *const F::T as *const u8 as usize) % k.align != 0 {
            self.o.add(Class::Layout, &format!("misaligned {how}"));
        } else if size_of_val(v) != k.size || align_of_val(v) != k.align {
            self.o.add(Class::Deliver, &format!("layout {}, {} instead of {k:?} {how}", size_of_val(v), align_of_val(v)));
        } else if !F::same(v, self.want) {
            self.o.add(Class::Deliver, &format!("another value than {:?} {how}", self.want));
        }
    }
}
impl<F: EFam> Use<F::T> for Sink<'_, F> {
    type Out = ();
    fn go<G: EmplacableFn<F::T>>(mut self, e: Emplacable<F::T, G>) {
        self.o.blocks = talloc::nblocks();
        self.o.reached = true;
        let k = F::KINDS[self.want.kind as usize];
        let held = match self.sink {
            0 => Held::Box(box_new_with(e)),
            1 => Held::Pin(box_pin_with(e)),
            2 => Held::Rc(rc_new_with(e)),
            3 => Held::PinRc(rc_pin_with(e)),
            4 => Held::Arc(arc_new_with(e)),
            5 => Held::PinArc(arc_pin_with(e)),
            6 => Held::Rc(e.into()),
            7 => Held::Arc(e.into()),
            K_DROP => {
                drop(e);
                return self.allocated(0);
            }
            K_FORGET => {
                e.forget();
                return self.allocated(0);
            }
            K_LEAK => return std::mem::forget(e),
            K_EMPL | K_NEVER | K_NULL => {
                let mut bad = None;
                let mut done = None;
                let mut calls = 0;
                {
                    let sink = self.sink;
                    let mut f = |l: Layout, meta: <F::T as Pointee>::Metadata, inner: &mut dyn FnMut(*mut PhantomData<F::T>)| {
                        calls += 1;
                        tick();
                        if (l.size(), l.align()) != (k.size, k.align) {
                            bad = Some(l);
                            return;
                        }
                        match sink {
                            K_EMPL => {
                                // aligned to exactly what is needed
                                let p = unsafe { (&raw mut BUF).cast::<u8>().add(l.align()) };
                                inner(p.cast());
                                done = Some(std::ptr::from_raw_parts_mut::<F::T>(p.cast::<()>(), meta));
                            }
                            K_NULL => inner(std::ptr::null_mut()),
                            _ => {}
                        }
                        tick();
                    };
                    let em = unsafe { Emplacer::<F::T>::from_fn(&mut f) };
                    e.into_fn()(em);
                }
                if let Some(l) = bad {
                    return self.o.add(Class::Deliver, &format!("layout {l:?} announced for {k:?}"));
                }
                if calls != 1 {
                    return self.o.add(Class::Deliver, &format!("the emplacer was called {calls} times"));
                }
                if let Some(p) = done {
                    self.judge(unsafe { &*p }, "from an emplacer");
                    unsafe { std::ptr::drop_in_place(p) };
                }
                return self.allocated(0);
            }
            K_PUSH | K_INS => {
                let mut v: UnsizedVec<F::T> = UnsizedVec::new();
                let (x, y) = (E { kind: 0, id: 203, salt: 0 }, E { kind: F::KINDS.len() as u8 - 1, id: 204, salt: 0 });
                F::push_un(&mut v, x);
                F::push_un(&mut v, y);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if self.sink == K_PUSH { v.push_with(e) } else { v.insert_with(0, e) }));
                if r.is_err() {
                    talloc::on();
                }
                // a panic in an element's destructor may leak the vector's buffer
                rt().tick_at = 0;
                let i = if self.sink == K_PUSH { 2 } else { 0 };
                let after = if i == 2 { [(0, x), (1, y)] } else { [(1, x), (2, y)] };
                let ok = if v.len() == 3 {
                    self.judge(&v[i], "in a vector");
                    after.iter().all(|&(i, x)| F::same(&v[i], x))
                } else {
                    r.is_err() && v.len() == 2 && F::same(&v[0], x) && F::same(&v[1], y)
                };
                if !ok {
                    self.o.add(Class::Deliver, "the vector it was added to is damaged");
                    std::mem::forget(v);
                } else {
                    drop(v);
                }
                if let Err(p) = r {
                    std::panic::resume_unwind(p);
                }
                return;
            }
            K_COLL => {
                let v: UnsizedVec<F::T> = [e].into_iter().collect();
                rt().tick_at = 0;
                if v.len() == 1 {
                    self.judge(&v[0], "in a vector");
                } else {
                    self.o.add(Class::Deliver, &format!("a vector of {} elements", v.len()));
                }
                return;
            }
            n => {
                if !F::more_sink(e, n - BASE_SINKS, self.want) {
                    self.o.add(Class::Deliver, "another value");
                }
                return;
            }
        };
        self.allocated(if self.sink < 2 { 0 } else { 1 });
        let what = SINK_NAMES[self.sink as usize];
        self.judge(held.get(), what);
        match &held {
            Held::Rc(r) if Rc::strong_count(r) != 1 || Rc::weak_count(r) != 0 => self.o.add(Class::Deliver, "counts of the Rc"),
            Held::Arc(r) if Arc::strong_count(r) != 1 || Arc::weak_count(r) != 0 => self.o.add(Class::Deliver, "counts of the Arc"),
            _ => {}
        }
        drop(held);
    }
}
fn sinks<F: EFam>() -> u8 {
    BASE_SINKS + F::MORE_SINKS
}
fn sink_name<F: EFam>(s: u8) -> String {
    if s < BASE_SINKS { SINK_NAMES[s as usize].into() } else { format!("{} destination {}", F::NAME, s - BASE_SINKS) }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Normal,
    Panic(u16),
    Oom(u16),
}
impl Mode {
    /// `m`: which, and the high bits of `k`.
    fn new(m: u8, k: u8) -> Self {
        let k = (m as u16 >> 2) << 8 | k as u16;
        match m & 3 { 0 => Mode::Normal, 1 => Mode::Panic(k), _ => Mode::Oom(k) }
    }
    fn arm(self) {
        match self {
            Mode::Normal => {}
            Mode::Panic(k) => arm(k as u64),
            Mode::Oom(k) => talloc::set_fail(k as u64),
        }
    }
    fn disarm(self) -> bool {
        match self {
            Mode::Normal => false,
            Mode::Panic(_) => {
                let f = rt().fired;
                arm(0);
                f
            }
            Mode::Oom(_) => {
                talloc::set_fail_off();
                talloc::fail_fired()
            }
        }
    }
}
/// No case makes more calls than this.
const MAX_FAULT: u16 = 4000;
static mut FIRED: bool = false;

/// Whatever happened, nothing is dropped twice or damaged.
fn audit(fails: &mut Vec<Fail>) {
    for r in [check_own(), check_heap()] {
        if let Err(f) = r {
            fails.push(f);
        }
    }
}
fn end(r: (Ended, Option<()>), fired: bool, fails: &mut Vec<Fail>) -> bool {
    match r.0 {
        Ended::Ok => true,
        Ended::Injected if fired => false,
        Ended::Panic if fired => false,
        _ => {
            fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) });
            false
        }
    }
}

/// One value from one source into one destination.
fn one<F: EFam>(kind: u8, src: u8, sink: u8, mode: Mode) -> Vec<Fail> {
    reset();
    let want = E { kind, id: 7, salt: 3 };
    let mut o = Obs::default();
    NEIGHBOURS.with(|n| n.set(false));
    mode.arm();
    let op = &mut o;
    let r = guarded(|| with::<F, _>(want, src, Sink::<F> { sink, want, normal: mode == Mode::Normal, lazy: is_lazy::<F>(src), o: op, f: PhantomData }));
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = std::mem::take(&mut o.fails);
    let ok = end(r, fired, &mut fails);
    audit(&mut fails);
    let (slot, toks) = F::toks(want);
    let live = rt().live;
    let leaked = live[slot];
    if !fired {
        let (lo, hi) = match sink {
            K_FORGET | K_NEVER if borrows::<F>(src) || is_clone::<F>(src) => (0, 0),
            K_FORGET | K_NEVER => (toks, toks),
            K_LEAK => (0, toks),
            _ => (0, 0),
        };
        // zero-sized values of different identity share a slot
        if leaked < lo || leaked > hi {
            fails.push(Fail { class: Class::Own, what: format!("{leaked} of the value's {toks} parts are alive in the end") });
        }
        for (s, l) in live.iter().enumerate() {
            if *l != 0 && s != slot {
                fails.push(Fail { class: Class::Own, what: format!("value {s} is alive in the end") });
                break;
            }
        }
        let may_leak = sink == K_LEAK || (matches!(sink, K_FORGET | K_NEVER) && is_list::<F>(src));
        if ok && !may_leak && talloc::live_blocks() > 0 {
            fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
        }
        if NEIGHBOURS.with(|n| n.get()) {
            fails.push(Fail { class: Class::Content, what: "the vector it was taken from is damaged".into() });
        }
    } else {
        for (s, l) in live.iter().enumerate() {
            if *l < 0 {
                fails.push(Fail { class: Class::Own, what: format!("value {s} dropped {} times too often", -l) });
                break;
            }
        }
        // a hand-written closure that panics once its job is done makes the destination
        // forget what it has got
        let late = src == CUSTOM && matches!(mode, Mode::Panic(k) if k >= 3);
        let coerced_custom = src == BASE_SRCS + F::NATIVES + F::MORE_SRCS + 4 && sized_base::<F>() && matches!(mode, Mode::Panic(k) if k >= 3);
        if o.reached && !late && !coerced_custom && !is_lazy::<F>(src) && sink != K_LEAK && !(sink >= BASE_SINKS) {
            if let Some(b) = talloc::blocks_since(o.blocks).iter().find(|b| b.live) {
                fails.push(Fail { class: Class::Heap, what: format!("the destination leaked its block {:?}", (b.size, b.align)) });
            }
        }
    }
    fails
}
/// Sources that allocate on the way, on their own account.
fn is_lazy<F: EFam>(src: u8) -> bool {
    matches!(F::NAME, "slice8" | "slice3" | "slice16a16" | "slicezst" | "sliceplain") && matches!(src.wrapping_sub(BASE_SRCS + F::NATIVES), 2 | 3)
}
/// Sources that clone when they are consumed.
fn is_clone<F: EFam>(src: u8) -> bool {
    matches!(F::NAME, "slice8" | "slice3" | "slice16a16" | "slicezst" | "sliceplain") && src == BASE_SRCS + F::NATIVES + 7
}

/// A value passed by value.
fn by_value<F: EFam>(kind: u8, src: u8, sink: u8, mode: Mode) -> Vec<Fail> {
    reset();
    let want = E { kind, id: 7, salt: 3 };
    let mut o = Obs::default();
    let op = &mut o;
    let r = guarded(|| {
        let mut s = Sink::<F> { sink, want, normal: mode == Mode::Normal, lazy: false, o: op, f: PhantomData };
        let held = if src == 1 {
            s.o.blocks = talloc::nblocks();
            mode.arm();
            F::with_sized(want, ByValue(sink, PhantomData::<fn(&F::T)>)).unwrap()
        } else {
            let b = F::make(want);
            s.o.blocks = talloc::nblocks();
            mode.arm();
            match sink {
                0 => Held::Box(box_new(*b)),
                1 => Held::Pin(box_pin(*b)),
                2 => Held::Rc(rc_new(*b)),
                3 => Held::PinRc(rc_pin(*b)),
                4 => Held::Arc(arc_new(*b)),
                5 => Held::PinArc(arc_pin(*b)),
                _ => Held::Box(with_emplacable_for(*b, |e| box_new_with(e))),
            }
        };
        s.o.reached = true;
        s.allocated(if (2..6).contains(&sink) { 1 } else { 0 });
        s.judge(held.get(), "passed by value");
        drop(held);
    });
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = std::mem::take(&mut o.fails);
    let ok = end(r, fired, &mut fails);
    audit(&mut fails);
    for (s, &l) in rt().live.iter().enumerate() {
        if l < 0 || (l > 0 && !fired) {
            fails.push(Fail { class: Class::Own, what: format!("{l} of value {s} are alive in the end") });
            break;
        }
    }
    if (ok && !fired || fired) && talloc::blocks_since(o.blocks).iter().any(|b| b.live) {
        fails.push(Fail { class: Class::Heap, what: "the destination leaked its block".into() });
    }
    if ok && !fired && talloc::live_blocks() > 0 {
        fails.push(Fail { class: Class::Heap, what: "a block leaked".into() });
    }
    fails
}

/// Lists whose length is a lie, into a destination.
fn lying(n: u8, lie: i8, inner: u8, sink: u8, mode: Mode) -> Vec<Fail> {
    type T = D<8, u64>;
    reset();
    mode.arm();
    let mut bad: Option<&'static str> = None;
    let bp = &mut bad;
    let mut panicked = false;
    let pp = &mut panicked;
    let r = guarded(|| {
        fn go<G: EmplacableFn<[T]>>(e: Emplacable<[T], G>, sink: u8) -> Option<Vec<T>> {
            match sink {
                0 => Some(box_new_with(e).into_vec()),
                1 => Some(e.into()),
                2 => { drop(e); None }
                3 => { e.forget(); None }
                _ => {
                    let mut v: UnsizedVec<[T]> = UnsizedVec::new();
                    v.push_with(e);
                    Some(box_new_with(v.pop_into().unwrap()).into_vec())
                }
            }
        }
        let vals: Vec<T> = (0..n).map(|i| D::new(i + 1, 3)).collect();
        let it = vals.into_iter();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match inner {
            0 => go(Emplacable::from_iter(Lies(it.map(Emplacable::from), lie as isize)), sink),
            1 => go(Emplacable::from_iter(Lies(it.map(|d| Emplacable::from(Box::new(d))), lie as isize)), sink),
            _ => go(Emplacable::from_iter(Lies(it.map(|d| custom::<T>(Box::new(d))), lie as isize)), sink),
        }));
        match r {
            Ok(Some(v)) => {
                // what there is must be a prefix of what was offered
                let ok = v.len() == ((n as i8 + lie.min(0)).max(0) as usize) && v.iter().enumerate().all(|(i, d)| d.is(i as u8 + 1, 3));
                if !ok {
                    *bp = Some("a wrong list was delivered");
                }
                drop(v);
            }
            Ok(None) => {}
            Err(p) => {
                talloc::on();
                *pp = true;
                untracked(|| drop(p));
            }
        }
    });
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = vec![];
    end(r, fired, &mut fails);
    if panicked && !fired && lie <= 0 {
        fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) });
    }
    if let Some(b) = bad {
        fails.push(Fail { class: Class::Deliver, what: b.into() });
    }
    audit(&mut fails);
    for (s, &l) in rt().live.iter().enumerate() {
        if l < 0 || (l > 0 && !fired && !panicked && sink != 3) {
            fails.push(Fail { class: Class::Own, what: format!("{l} of value {s} are alive in the end") });
            break;
        }
    }
    fails
}

/// Several emplacables into a `Vec`, an array, or nothing.
fn many<F: EFam>(n: u8, how: u8, inner: u8, mode: Mode) -> Vec<Fail>
where
    F::T: Sized,
{
    reset();
    let el = |i: u8| E { kind: 0, id: i + 1, salt: 3 };
    let mut bad: Option<String> = None;
    let bp = &mut bad;
    let r = guarded(|| {
        struct Hint<I>(I, usize);
        impl<I: Iterator> Iterator for Hint<I> {
            type Item = I::Item;
            fn next(&mut self) -> Option<I::Item> {
                tick();
                self.0.next()
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                (self.1, None)
            }
        }
        fn go<F: EFam, I: Iterator<Item = Emplacable<F::T, G>>, G: EmplacableFn<F::T>>(it: I, n: u8, how: u8, mode: Mode) -> Result<(), String>
        where
            F::T: Sized,
        {
            let el = |i: u8| E { kind: 0, id: i + 1, salt: 3 };
            let check = |v: &[F::T], from: usize, full: bool| -> Result<(), String> {
                for i in 0..v.len() {
                    let want = if i < from { E { kind: 0, id: 100 + i as u8, salt: 3 } } else { el((i - from) as u8) };
                    if i - from.min(i) >= n as usize && i >= from || !F::same(&v[i], want) {
                        return Err(untracked(|| format!("element {i} of {} is wrong", v.len())));
                    }
                }
                if full && v.len() != from + n as usize || v.len() < from {
                    return Err(untracked(|| format!("{} elements instead of {n} after {from}", v.len())));
                }
                Ok(())
            };
            mode.arm();
            match how {
                0..3 => {
                    let v: Vec<F::T> = Hint(it, [0, n as usize, n as usize + 9][how as usize]).collect();
                    check(&v, 0, true)
                }
                3..9 => {
                    // onto an existing vector, with and without spare capacity
                    let pre = (how % 2) as usize * 2;
                    let (v, r) = {
                        arm(0);
                        talloc::set_fail_off();
                        let mut v: Vec<F::T> = Vec::with_capacity(pre + (how as usize - 3) / 2);
                        for i in 0..pre {
                            v.push(*F::make(E { kind: 0, id: 100 + i as u8, salt: 3 }));
                        }
                        let it = Hint(it, [0, n as usize, 1][(how as usize - 3) / 2]);
                        mode.arm();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.extend(it)));
                        (v, r)
                    };
                    if r.is_err() {
                        talloc::on();
                    }
                    check(&v, pre, r.is_ok())?;
                    drop(v);
                    if let Err(p) = r {
                        std::panic::resume_unwind(p);
                    }
                    Ok(())
                }
                _ => {
                    macro_rules! arrays { ($($len:literal)*) => { match n { $($len => {
                        let mut it = it;
                        let a: [Emplacable<F::T, G>; $len] = std::array::from_fn(|_| it.next().unwrap());
                        let a: Emplacable<[F::T; $len], _> = a.into();
                        match how {
                            9 => check(&a.get(), 0, true),
                            10 => check(&*box_new_with(a), 0, true),
                            11 => { drop(a); Ok(()) }
                            12 => check(&Vec::from(Emplacable::<[F::T], _>::from(a)), 0, true),
                            13 => check(&*arc_new_with::<[F::T]>(a.into()), 0, true),
                            14 => { a.forget(); Ok(()) }
                            _ => {
                                let mut v: UnsizedVec<[F::T]> = UnsizedVec::new();
                                v.push_with(a.into());
                                check(&v[0], 0, true)
                            }
                        }
                    })* _ => unreachable!() } } }
                    arrays!(0 1 2 3 4 8 17 40 130)
                }
            }
        }
        let vals: Vec<F::T> = (0..n).map(|i| *F::make(el(i))).collect();
        let it = vals.into_iter();
        let r = match inner {
            0 => go::<F, _, _>(it.map(Emplacable::from), n, how, mode),
            1 => go::<F, _, _>(it.map(|d| Emplacable::from(Box::new(d))), n, how, mode),
            _ => go::<F, _, _>(it.map(|d| custom::<F::T>(Box::new(d))), n, how, mode),
        };
        if let Err(w) = r {
            *bp = Some(w);
        }
    });
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = vec![];
    let ok = end(r, fired, &mut fails);
    if let Some(b) = bad {
        fails.push(Fail { class: Class::Deliver, what: b });
    }
    audit(&mut fails);
    let forgets = how == 14;
    for (s, &l) in rt().live.iter().enumerate() {
        if l < 0 || (l > 0 && !fired && !forgets) {
            fails.push(Fail { class: Class::Own, what: format!("{l} of value {s} are alive in the end") });
            break;
        }
    }
    if ok && !fired && !forgets && talloc::live_blocks() > 0 {
        fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
    }
    fails
}

/// Lists of any length: made by `inner`, delivered in way `how`.
const LONG_HOWS: u8 = 20;
const ARRAYS: [u32; 8] = [5, 63, 64, 65, 255, 256, 257, 300];
fn long<F: EFam>(n: usize, how: u8, inner: u8, mode: Mode) -> Vec<Fail>
where
    F::T: Sized,
{
    fn el(i: usize) -> E {
        E { kind: 0, id: (i % 199) as u8 + 1, salt: (i / 199 % 250) as u8 }
    }
    fn whole<F: EFam>(v: &[F::T], n: usize) -> Result<(), String>
    where
        F::T: Sized,
    {
        if v.len() != n {
            return Err(untracked(|| format!("{} elements instead of {n}", v.len())));
        }
        match (0..n).find(|&i| !F::same(&v[i], el(i))) {
            Some(i) => Err(untracked(|| format!("element {i} of {n} is wrong"))),
            None => Ok(()),
        }
    }
    /// What is done with an emplacable of the whole list.
    fn list<F: EFam, G: EmplacableFn<[F::T]>>(e: Emplacable<[F::T], G>, n: usize, how: u8) -> Result<(), String>
    where
        F::T: Sized,
    {
        match how {
            0 => whole::<F>(&box_new_with(e), n),
            1 => whole::<F>(&e.into_vec(), n),
            2 => whole::<F>(&rc_new_with(e), n),
            3 => whole::<F>(&Arc::<[F::T]>::from(e), n),
            4 => Ok(drop(e)),
            5 => Ok(e.forget()),
            6 => {
                let mut v: UnsizedVec<[F::T]> = UnsizedVec::new();
                v.push_with(e);
                whole::<F>(&v[0], n)?;
                whole::<F>(&box_new_with(v.pop_into().unwrap()), n)
            }
            _ => {
                // through a vector, in front of and behind another list
                let mut v: UnsizedVec<[F::T]> = UnsizedVec::new();
                v.insert_with(0, e);
                v.push_with([Emplacable::from(*untracked(|| F::make(el(5))))].into());
                v.insert_with(0, [Emplacable::from(*untracked(|| F::make(el(6))))].into());
                whole::<F>(&v[1], n)?;
                whole::<F>(&Vec::from(v.remove_into(1)), n)?;
                if v.len() == 2 && F::same(&v[0][0], el(6)) && F::same(&v[1][0], el(5)) { Ok(()) } else { Err("its neighbours are damaged".into()) }
            }
        }
    }
    reset();
    let mut bad: Option<String> = None;
    let bp = &mut bad;
    let mut blocks = 0;
    let kp = &mut blocks;
    let r = guarded(|| {
        fn go<F: EFam, I: ExactSizeIterator<Item = Emplacable<F::T, G>>, G: EmplacableFn<F::T>>(it: I, n: usize, how: u8) -> Result<(), String>
        where
            F::T: Sized,
        {
            match how {
                0..8 => list::<F, _>(Emplacable::from_iter(it), n, how),
                8 => whole::<F>(&it.collect::<Vec<F::T>>(), n),
                9 => {
                    // in three parts
                    let mut v: Vec<F::T> = Vec::new();
                    let mut it = it;
                    v.extend(it.by_ref().take(n / 3));
                    v.extend(it.by_ref().take(n / 3));
                    v.extend(it);
                    whole::<F>(&v, n)
                }
                10 => {
                    let v: UnsizedVec<F::T> = it.collect();
                    let v: Vec<F::T> = v.into();
                    whole::<F>(&v, n)
                }
                17.. => {
                    macro_rules! arrays { ($($len:literal)*) => { match n { $($len => {
                        let mut it = it;
                        let a: [Emplacable<F::T, G>; $len] = std::array::from_fn(|_| it.next().unwrap());
                        let a: Emplacable<[F::T; $len], _> = a.into();
                        match how {
                            17 => whole::<F>(&*box_new_with(a), n),
                            18 => Ok(drop(a)),
                            _ => list::<F, _>(a.into(), n, 6),
                        }
                    })* _ => unreachable!() } } }
                    arrays!(5 63 64 65 255 256 257 300)
                }
                _ => {
                    let v: Vec<F::T> = it.map(|e| e.get()).collect();
                    match how {
                        11 => list::<F, _>(v.into(), n, 0),
                        12 => list::<F, _>(v.into_boxed_slice().into(), n, 1),
                        13 => list::<F, _>(v.into(), n, 4),
                        14 => list::<F, _>(v.into(), n, 7),
                        15 => list::<F, _>(v.into_boxed_slice().into(), n, 5),
                        _ => list::<F, _>(v.into(), n, 3),
                    }
                }
            }
        }
        let vals: Vec<F::T> = (0..n).map(|i| *F::make(el(i))).collect();
        let it = vals.into_iter();
        *kp = talloc::nblocks();
        mode.arm();
        let r = match inner {
            0 => go::<F, _, _>(it.map(Emplacable::from), n, how),
            1 => go::<F, _, _>(it.map(|d| Emplacable::from(Box::new(d))), n, how),
            _ => go::<F, _, _>(it.map(|d| custom::<F::T>(Box::new(d))), n, how),
        };
        if let Err(w) = r {
            *bp = Some(w);
        }
    });
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = vec![];
    let ok = end(r, fired, &mut fails);
    if let Some(b) = bad {
        fails.push(Fail { class: Class::Deliver, what: b });
    }
    audit(&mut fails);
    let forgets = how == 5 || how == 15;
    for (s, &l) in rt().live.iter().enumerate() {
        if l < 0 || (l > 0 && !fired && !forgets) {
            fails.push(Fail { class: Class::Own, what: format!("{l} of value {s} are alive in the end") });
            break;
        }
    }
    if ok && !fired {
        if !(how == 5 || how == 15) && talloc::live_blocks() > 0 {
            fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
        }
        if inner == 0 && matches!(how, 0 | 1) {
            let new = talloc::blocks_since(blocks);
            let k = F::KINDS[0];
            let bytes = k.size * n;
            if new.len() > (bytes > 0) as usize || new.iter().any(|b| (b.size, b.align) != (bytes, k.align)) {
                fails.push(Fail { class: Class::Heap, what: format!("a box of {bytes} bytes took {:?}", new.iter().map(|b| (b.size, b.align)).collect::<Vec<_>>()) });
            }
        }
    }
    fails
}
/// The lengths tried.
fn long_lens(level: usize, faults: bool) -> Vec<u32> {
    if faults {
        return match level { 0 => vec![3], 1 => (0..=9).chain([33, 257]).collect(), _ => (0..=40).chain([64, 129, 255, 256, 257, 300, 513]).collect() };
    }
    let dense = [5, 40, 300][level];
    let more: &[u32] = match level {
        0 => &[257],
        1 => &[63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1025, 4097],
        _ => &[511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2049, 4095, 4096, 4097, 8193, 10000, 16383, 16385],
    };
    (0..=dense).chain(more.iter().copied()).collect()
}

fn text_lens(level: usize, faults: bool) -> Vec<u32> {
    if faults {
        return match level { 0 => vec![0, 300], 1 => vec![0, 1, 15, 16, 17, 64, 256, 257, 300, 1024, 4096, 5000], _ => (0..=300).chain([1024, 4096, 5000, 65536]).collect() };
    }
    let dense = [20, 300, 1200][level];
    (0..=dense).chain([2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537].into_iter().take(if level == 0 { 0 } else { 99 })).collect()
}

/// Texts (and bytes) of any length.
trait Text: 'static {
    fn boxed(b: &[u8]) -> Box<Self>;
    fn bytes(&self) -> &[u8];
    /// From a box, a borrow, a by-value parameter, or one of its own.
    fn from<C: Use<Self>>(b: Box<Self>, src: u8, c: C) -> C::Out;
    /// Into an owned buffer.
    fn own<G: EmplacableFn<Self>>(e: Emplacable<Self, G>, which: u8, f: impl FnOnce(&[u8])) -> bool;
}
macro_rules! texts {
    ($($t:ty, $boxed:expr, $bytes:expr, [$($own:expr),*];)*) => { $(
        impl Text for $t {
            fn boxed(b: &[u8]) -> Box<$t> {
                let f: fn(&[u8]) -> Box<$t> = $boxed;
                f(b)
            }
            fn bytes(&self) -> &[u8] {
                let f: fn(&$t) -> &[u8] = $bytes;
                f(self)
            }
            fn from<C: Use<$t>>(b: Box<$t>, src: u8, c: C) -> C::Out {
                match src {
                    0 => c.go(b.into()),
                    1 => {
                        let s: &$t = &b;
                        c.go(s.into())
                    }
                    2 => {
                        let mut c = Some(c);
                        with_emplacable_for(*b, |e| c.take().unwrap().go(e))
                    }
                    3 => {
                        let mut v: UnsizedVec<$t> = UnsizedVec::new();
                        v.push(*Self::boxed(b"before"));
                        v.push(*b);
                        v.push(*Self::boxed(b"after"));
                        c.go(v.remove_into(1))
                    }
                    _ => c.go(custom::<$t>(b)),
                }
            }
            fn own<G: EmplacableFn<$t>>(e: Emplacable<$t, G>, which: u8, f: impl FnOnce(&[u8])) -> bool {
                let mut k = 0;
                $(
                    if k == which {
                        f(&$own(e));
                        return true;
                    }
                    k += 1;
                )*
                let _ = (k, e, f);
                false
            }
        }
    )* };
}
texts! {
    str, |b| String::from_utf8(b.to_vec()).unwrap().into_boxed_str(), |s| s.as_bytes(),
        [|e: Emplacable<str, G>| e.into_string().into_bytes(), |e| String::from(e).into_bytes(),
            |e| Emplacable::<[u8], _>::from(e).into_vec(), |e| Rc::<[u8]>::from(Emplacable::<[u8], _>::from(e))];
    CStr, |b| CString::new(b).unwrap().into_boxed_c_str(), |s| s.to_bytes(),
        [|e| CString::from(e).into_bytes()];
    OsStr, |b| OsString::from(String::from_utf8(b.to_vec()).unwrap()).into_boxed_os_str(), |s| s.as_encoded_bytes(),
        [|e| OsString::from(e).into_encoded_bytes()];
    Path, |b| PathBuf::from(String::from_utf8(b.to_vec()).unwrap()).into_boxed_path(), |s| s.as_os_str().as_encoded_bytes(),
        [|e| PathBuf::from(e).into_os_string().into_encoded_bytes()];
    [u8], |b| b.into(), |s| s, [|e: Emplacable<[u8], G>| e.into_vec(), |e| Vec::from(e)];
}
const TEXT_SRCS: u8 = 5;
const TEXT_SINKS: u8 = 12;
/// Two-byte characters, then one-byte ones, all different over 90 places.
fn sample_text(n: usize) -> Vec<u8> {
    let mut v = vec![];
    while v.len() + 2 <= n / 2 {
        v.extend_from_slice("é".as_bytes());
        v.push(b'!' + (v.len() % 90) as u8);
    }
    while v.len() < n {
        v.push(b'!' + (v.len() % 90) as u8);
    }
    v
}
struct TextSink<'a, T: ?Sized> {
    sink: u8,
    want: &'a [u8],
    bad: &'a mut Option<String>,
    t: PhantomData<fn(&T)>,
}
impl<T: ?Sized + Text> Use<T> for TextSink<'_, T> {
    type Out = ();
    fn go<G: EmplacableFn<T>>(self, e: Emplacable<T, G>) {
        let TextSink { sink, want, bad, .. } = self;
        let mut see = |b: &[u8]| {
            if b != want && bad.is_none() {
                *bad = Some(untracked(|| match b.iter().zip(want).position(|(x, y)| x != y) {
                    Some(i) => format!("byte {i} of {} is wrong", want.len()),
                    None => format!("{} bytes instead of {}", b.len(), want.len()),
                }));
            }
        };
        match sink {
            0 => see(box_new_with(e).bytes()),
            1 => see(rc_new_with(e).bytes()),
            2 => see(arc_pin_with(e).bytes()),
            3 => see(Arc::<T>::from(e).bytes()),
            4 => {
                let mut v: UnsizedVec<T> = UnsizedVec::new();
                v.push_with(e);
                see(v[0].bytes());
                let b = box_new_with(v.pop_into().unwrap());
                see(b.bytes());
            }
            5 => {
                let mut v: UnsizedVec<T> = UnsizedVec::with_capacity_bytes(2, 8);
                v.push_with(untracked(|| T::boxed(b"behind")).into());
                v.insert_with(0, e);
                v.insert_with(0, untracked(|| T::boxed(b"in front")).into());
                see(v[1].bytes());
                see(box_new_with(v.remove_into(1)).bytes());
                if v.len() != 2 || v[0].bytes() != b"in front" || v[1].bytes() != b"behind" {
                    see(b"(damaged neighbours)");
                }
            }
            6 => drop(e),
            7 => e.forget(),
            n => {
                T::own(e, n - 8, see);
            }
        }
    }
}
fn texts(t: u8, n: usize, src: u8, sink: u8, mode: Mode) -> Vec<Fail> {
    fn go<T: ?Sized + Text>(n: usize, src: u8, sink: u8, mode: Mode, bad: &mut Option<String>) {
        let want = untracked(|| sample_text(n));
        let b = T::boxed(&want);
        mode.arm();
        T::from(b, src, TextSink { sink, want: &want, bad, t: PhantomData::<fn(&T)> });
        // lost to a fault, it is not tracked
        untracked(|| drop(want));
    }
    reset();
    let mut bad: Option<String> = None;
    let bp = &mut bad;
    let r = guarded(|| match t {
        0 => go::<str>(n, src, sink, mode, bp),
        1 => go::<CStr>(n, src, sink, mode, bp),
        2 => go::<OsStr>(n, src, sink, mode, bp),
        3 => go::<Path>(n, src, sink, mode, bp),
        _ => go::<[u8]>(n, src, sink, mode, bp),
    });
    let fired = mode.disarm();
    unsafe { FIRED = fired };
    let mut fails = vec![];
    let ok = end(r, fired, &mut fails);
    if let Some(b) = bad {
        fails.push(Fail { class: Class::Deliver, what: b });
    }
    audit(&mut fails);
    if ok && !fired && talloc::live_blocks() > 0 {
        fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
    }
    fails
}

/// String literals by value.
fn literals(which: u8) -> Vec<Fail> {
    reset();
    let mut bad: Option<String> = None;
    let bp = &mut bad;
    let r = guarded(|| {
        macro_rules! lits { ($($i:literal => $s:literal;)*) => { match which { $($i => {
            let b: Box<str> = box_new(by_value_str!($s));
            let r: Rc<str> = rc_new(by_value_str!($s));
            let a: Pin<Arc<str>> = arc_pin(by_value_str!($s));
            let w: String = with_emplacable_for::<str, _, _>(by_value_str!($s), |e| e.into());
            let mut v: UnsizedVec<str> = UnsizedVec::new();
            v.push(by_value_str!($s));
            v.insert(0, by_value_str!("-"));
            if &*b != $s || &*r != $s || &*a != $s || w != $s || &v[1] != $s || &v[0] != "-" || v.len() != 2 {
                *bp = Some(format!("by_value_str!({:?}) is {b:?}, {r:?}, {a:?}, {w:?}, {v:?}", $s));
            }
        })* _ => unreachable!() } } }
        lits! { 0 => ""; 1 => "a"; 2 => "héllo"; 3 => "0123456789012345678901234567890123456789"; 4 => "\0"; 5 => "😀"; }
    });
    let mut fails = vec![];
    end(r, false, &mut fails);
    if let Some(b) = bad {
        fails.push(Fail { class: Class::Deliver, what: b });
    }
    audit(&mut fails);
    if fails.is_empty() && talloc::live_blocks() > 0 {
        fails.push(Fail { class: Class::Heap, what: "a block leaked".into() });
    }
    fails
}

/// The closure given to `with_emplacable_for` panics: 0 without touching the emplacable,
/// 1 after boxing the value, 2 after forgetting it, 3 having leaked it.
fn with_panics(fam: u8, how: u8) -> Vec<Fail> {
    fn go<F: EFam>(how: u8) {
        let b = F::make(E { kind: 1 % F::KINDS.len() as u8, id: 7, salt: 3 });
        with_emplacable_for(*b, |e| {
            match how {
                0 => {}
                1 => drop(box_new_with(e)),
                2 => e.forget(),
                _ => std::mem::forget(e),
            }
            std::panic::panic_any(Injected)
        })
    }
    reset();
    let r = guarded(|| match fam {
        0 => go::<S8>(how),
        1 => go::<DYN>(how),
        _ => go::<L8>(how),
    });
    let mut fails = vec![];
    end(r, true, &mut fails);
    audit(&mut fails);
    for (s, &l) in rt().live.iter().enumerate() {
        if l < 0 {
            fails.push(Fail { class: Class::Own, what: format!("value {s} dropped {} times too often", -l) });
            break;
        }
    }
    fails
}

// ---------------------------------------------------------------- cases
// E prop what mode k ..: 0 one (family, kind, src, sink), 1 by value (family, kind, src, sink),
// 2 lying (n, lie, inner, sink), 3 many (family, n, how, inner), 4 literals (which),
// 5 with_emplacable_for whose closure panics (family, how), 6 long lists (family, n, how, inner),
// 7 texts (type, n, source, destination)

fn for_sized<R>(f: u8, a: impl Fn(u8) -> R) -> R {
    a(f)
}
fn run(c: &[u8]) -> Vec<Fail> {
    let mode = Mode::new(c[3], c[4]);
    match c[2] {
        0 => on!(empl { for_mine!(FAMILIES[c[5] as usize], F => one::<F>(c[6], c[7], c[8], mode)) }),
        1 => on!(empl { for_mine!(FAMILIES[c[5] as usize], F => by_value::<F>(c[6], c[7], c[8], mode)) }),
        2..7 => on!(lists { run_lists(c, mode) }),
        7 => on!(texts { texts(c[5], u32::from_le_bytes([c[6], c[7], c[8], 0]) as usize, c[9], c[10], mode) }),
        _ => unreachable!(),
    }
}
fn run_lists(c: &[u8], mode: Mode) -> Vec<Fail> {
    match c[2] {
        2 => lying(c[5], c[6] as i8, c[7], c[8], mode),
        3 => for_sized(c[5], |f| match f {
            0 => many::<S8>(c[6], c[7], c[8], mode),
            1 => many::<S1>(c[6], c[7], c[8], mode),
            2 => many::<S3>(c[6], c[7], c[8], mode),
            3 => many::<S16>(c[6], c[7], c[8], mode),
            4 => many::<SZ>(c[6], c[7], c[8], mode),
            _ => many::<SP>(c[6], c[7], c[8], mode),
        }),
        4 => literals(c[5]),
        6 => {
            let n = u32::from_le_bytes([c[6], c[7], c[8], 0]) as usize;
            match c[5] {
                0 => long::<S8>(n, c[9], c[10], mode),
                1 => long::<S1>(n, c[9], c[10], mode),
                2 => long::<S3>(n, c[9], c[10], mode),
                3 => long::<S16>(n, c[9], c[10], mode),
                4 => long::<SZ>(n, c[9], c[10], mode),
                _ => long::<SP>(n, c[9], c[10], mode),
            }
        }
        _ => with_panics(c[5], c[6]),
    }
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    run(c).iter().filter(|f| concerns(c[1], f.class)).map(|f| format!("{:?}: {}", f.class, f.what)).collect()
}
pub fn describe(c: &[u8]) -> String {
    let fault = match Mode::new(c[3], c[4]) {
        Mode::Normal => String::new(),
        Mode::Panic(k) => format!(" [call {k} into caller-supplied code panics]"),
        Mode::Oom(k) => format!(" [allocator call {k} fails]"),
    };
    (match c[2] {
        0 => for_family!(FAMILIES[c[5] as usize], F =>
            format!("{} kind {} from {} into {}", F::NAME, c[6], src_name::<F>(c[7]), sink_name::<F>(c[8]))),
        1 => format!("{} kind {} by value{} into {}", FAMILIES[c[5] as usize], c[6], if c[7] == 1 { " (unsize!)" } else { "" },
            ["box_new", "box_pin", "rc_new", "rc_pin", "arc_new", "arc_pin", "with_emplacable_for"][c[8] as usize]),
        2 => format!("from_iter of {} emplacables (kind {}) whose length is announced {} off, destination {}", c[5], c[7], c[6] as i8, c[8]),
        3 => format!("{} emplacables (kind {}) of sized family {}, collected in way {}", c[6], c[8], c[5], c[7]),
        4 => format!("by_value_str! literal {}", c[5]),
        7 => format!("{} of {} bytes from {} into {}", ["str", "CStr", "OsStr", "Path", "[u8]"][c[5] as usize],
            u32::from_le_bytes([c[6], c[7], c[8], 0]),
            ["a box", "a borrow", "a by-value parameter", "a removal", "a hand-written closure"][c[9] as usize],
            ["a box", "an Rc", "a pinned Arc", "Arc::from", "a vector, by push_with", "a vector, by insert_with", "drop", "forget",
                "an owned buffer (0)", "an owned buffer (1)", "an owned buffer (2)", "an owned buffer (3)"][c[10] as usize]),
        6 => format!("a list of {} elements (kind {}) of sized family {}, delivered in way {}", u32::from_le_bytes([c[6], c[7], c[8], 0]), c[10], c[5], c[9]),
        _ => format!("with_emplacable_for of {} whose closure panics {}", ["sized8", "dyn", "slice8"][c[5] as usize],
            ["without touching the emplacable", "after boxing the value", "after forgetting the value", "after leaking the emplacable"][c[6] as usize]),
    }) + &fault
}

/// Job 0: what does not depend on a family; then family `job - 1`; then long lists.
pub fn explore(prop: u8, job: usize, level: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let faults = prop == 17;
    let mut go = |c: &mut Vec<u8>| {
        if rec.full() {
            return;
        }
        rec.st.states += 1;
        let modes: &[u8] = if faults { &[1, 2] } else { &[0] };
        for &m in modes {
            for k in 1..=MAX_FAULT {
                c[3] = m | ((k >> 8) as u8) << 2;
                c[4] = k as u8;
                note(c);
                let f = run(c);
                let fired = unsafe { FIRED };
                if m != 0 && !fired {
                    rec.st.execs += 1;
                    break;
                }
                rec.st.transitions += (m == 0) as u64;
                rec.st.faults += (m != 0) as u64;
                let ok = f.is_empty();
                rec.result(c, &f, describe);
                rec.sample(53, || describe(c));
                if m == 0 || !ok {
                    break;
                }
                if k == MAX_FAULT {
                    rec.st.truncated += 1;
                }
            }
        }
    };
    let mut c = vec![];
    let mut case = |what: u8, rest: &[u8]| {
        c.clear();
        c.extend_from_slice(&[b'E', prop, what, 0, 0]);
        c.extend_from_slice(rest);
        go(&mut c);
    };
    if job == 0 {
        let big = 3 + 2 * level as u8;
        for n in 0..=big {
            for lie in -2..=2i8 {
                if prop == 15 && lie != 0 {
                    continue;
                }
                for inner in 0..3 {
                    for sink in 0..5 {
                        case(2, &[n, lie as u8, inner, sink]);
                    }
                }
            }
        }
        for f in 0..6 {
            for n in if level == 0 { vec![0, 1, 3] } else if faults && level == 1 { vec![0u8, 1, 2, 3, 4, 8, 17] } else { vec![0, 1, 2, 3, 4, 8, 17, 40, 130] } {
                for how in 0..16 {
                    for inner in 0..3 {
                        case(3, &[f, n, how, inner]);
                    }
                }
            }
        }
        if !faults {
            for w in 0..6 {
                case(4, &[w]);
            }
        }
        return;
    }
    if job > FAMILIES.len() + 6 {
        let t = (job - FAMILIES.len() - 7) as u8;
        for n in text_lens(level, faults) {
            let [a, b, d, _] = n.to_le_bytes();
            for src in 0..TEXT_SRCS {
                // a panic in the closure given to `with_emplacable_for` is a known finding
                if faults && src == 2 {
                    continue;
                }
                for sink in 0..TEXT_SINKS {
                    case(7, &[t, a, b, d, src, sink]);
                }
            }
        }
        return;
    }
    if job > FAMILIES.len() {
        let f = (job - FAMILIES.len() - 1) as u8;
        for n in long_lens(level, faults) {
            let [a, b, d, _] = n.to_le_bytes();
            for how in 0..LONG_HOWS {
                for inner in 0..3 {
                    // one block per element: within what the allocator keeps apart
                    if how >= 17 && !ARRAYS.contains(&n) {
                        continue;
                    }
                    if inner > 0 && n > 4097 || f == 3 && n > 20000 {
                        continue;
                    }
                    case(6, &[f, a, b, d, how, inner]);
                }
            }
        }
        return;
    }
    let fam = (job - 1) as u8;
    let (nk, ns, nd, base) = for_family!(FAMILIES[fam as usize], F => (F::KINDS.len() as u8, srcs::<F>(), sinks::<F>(), sized_base::<F>()));
    let with_by_value = |src: u8| {
        src == WITH || base && src == ns - 1
    };
    for kind in 0..nk {
        for src in 0..ns {
            // a panic in the closure given to `with_emplacable_for` is a known finding
            if faults && with_by_value(src) {
                continue;
            }
            for sink in 0..nd {
                case(0, &[fam, kind, src, sink]);
            }
        }
        for src in 0..2 {
            if src == 1 && !base {
                continue;
            }
            for sink in 0..7 {
                if faults && sink == 6 {
                    continue;
                }
                case(1, &[fam, kind, src, sink]);
            }
        }
    }
}

/// The panicking closures of `with_emplacable_for`, for C17.
pub fn explore_with(prop: u8, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    for f in 0..3 {
        for how in 0..4 {
            let c = [b'E', prop, 5, 0, 0, f, how];
            note(&c);
            rec.st.states += 1;
            rec.st.faults += 1;
            let x = run(&c);
            rec.result(&c, &x, describe);
        }
    }
}
