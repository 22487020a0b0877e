//! Families: one per element type `T` of `UnsizedVec<T>` explored, each with a small menu
//! of kinds (shapes a value can have).

use crate::elem::*;
use crate::rt::{tick, zslot};
use crate::talloc::untracked;
use emplacable::{Emplacable, EmplacableFn, Emplacer, with_emplacable_for};
use std::alloc::Layout;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::path::{Path, PathBuf};
use std::marker::{PhantomData, Unsize};
use std::ptr;
use unsized_vec::UnsizedVec;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    Sized,
    /// Unsized with an alignment fixed by the type: no padding, no alignment capacity.
    Aligned,
    Unaligned,
}

#[derive(Clone, Copy, Debug)]
pub struct K {
    pub size: usize,
    pub align: usize,
    /// Tracked values inside one value of this kind.
    pub toks: i32,
    /// Whether those are zero-sized.
    pub z: bool,
}

/// Something done with a sized value that coerces to `T`.
pub trait SizedUse<T: ?Sized> {
    type Out;
    fn go<S: Unsize<T> + 'static>(self, s: S) -> Self::Out;
}

/// Something done with an emplacable, generic over its closure type.
pub trait Use<T: ?Sized> {
    type Out;
    fn go<F: EmplacableFn<T>>(self, e: Emplacable<T, F>) -> Self::Out;
}

pub trait Fam: 'static {
    type T: ?Sized + 'static;
    const NAME: &'static str;
    const CLS: Cls;
    /// Alignment of the type (1 when it depends on the value).
    const ALIGN: usize;
    const KINDS: &'static [K];
    /// Number of family-specific emplacable sources.
    const NATIVES: u8;
    fn make(e: E) -> Box<Self::T>;
    fn same(v: &Self::T, e: E) -> bool;
    fn rewrite(v: &mut Self::T, e: E);
    fn push_un(v: &mut UnsizedVec<Self::T>, e: E) {
        let b = untracked(|| Self::make(e));
        v.push(*b);
    }
    fn ins_un(v: &mut UnsizedVec<Self::T>, i: usize, e: E) {
        let b = untracked(|| Self::make(e));
        v.insert(i, *b);
    }
    fn native<C: Use<Self::T>>(e: E, which: u8, c: C) -> C::Out;
    /// `n` values of kind `e.kind`, ids from `e.id`, coerced from a vector of sized values
    /// with `extra` spare capacity. `None` if there is no such coercion.
    fn from_vec(_e: E, _n: usize, _extra: usize) -> Option<UnsizedVec<Self::T>> {
        None
    }
    /// The sized value that coerces to `e`, where there is one.
    fn with_sized<C: SizedUse<Self::T>>(_e: E, _c: C) -> Option<C::Out> {
        None
    }
    /// The registry slot and number of tracked values of `e`.
    fn toks(e: E) -> (usize, i32) {
        let k = Self::KINDS[e.kind as usize];
        (if k.z { zslot(k.align) } else { e.id as usize }, k.toks)
    }
}

/// Sources of emplacables common to all families, then the family's own.
pub const GENERIC_SRCS: u8 = 4;
pub fn with_src<F: Fam, C: Use<F::T>>(e: E, src: u8, c: C) -> C::Out {
    match src {
        0 => {
            let b = untracked(|| F::make(e));
            c.go(b.into())
        }
        1 => {
            let mut v: UnsizedVec<F::T> = untracked(|| {
                let mut v = UnsizedVec::new();
                v.push(*F::make(e));
                v
            });
            let r = c.go(v.remove_into(0));
            untracked(|| drop(v));
            r
        }
        2 => {
            let b = untracked(|| F::make(e));
            c.go(custom::<F::T>(b))
        }
        3 => {
            let b = untracked(|| F::make(e));
            let mut c = Some(c);
            with_emplacable_for(*b, |em| c.take().unwrap().go(em))
        }
        n => F::native(e, n - GENERIC_SRCS, c),
    }
}

/// A hand-written emplacable that may panic before calling the emplacer, before writing
/// the value, and after the emplacer has returned.
pub fn custom<T: ?Sized>(b: Box<T>) -> Emplacable<T, impl EmplacableFn<T>> {
    let f = move |em: &mut Emplacer<'_, T>| {
        tick();
        let layout = Layout::for_value(&*b);
        let p = Box::into_raw(b);
        let meta = ptr::metadata(p);
        let g = unsafe { em.into_fn() };
        g(layout, meta, &mut |out| {
            tick();
            unsafe {
                if out.is_null() {
                    ptr::drop_in_place(p);
                } else {
                    ptr::copy_nonoverlapping(p.cast::<u8>(), out.cast::<u8>(), layout.size());
                }
            }
        });
        if layout.size() > 0 {
            unsafe { std::alloc::dealloc(p.cast(), layout) }
        }
        tick();
    };
    unsafe { Emplacable::from_fn(f) }
}

/// Moves a sized value into an emplacable of an unsized one.
macro_rules! k {
    ($size:expr, $align:expr, $toks:expr) => {
        K { size: $size, align: $align, toks: $toks, z: false }
    };
    ($size:expr, $align:expr, $toks:expr, z) => {
        K { size: $size, align: $align, toks: $toks, z: true }
    };
}

// ---------------------------------------------------------------- sized

macro_rules! sized_fam {
    ($f:ident, $name:literal, $d:ident, $n:literal, $a:ty, $k:expr) => {
        pub struct $f;
        impl Fam for $f {
            type T = $d<$n, $a>;
            const NAME: &'static str = $name;
            const CLS: Cls = Cls::Sized;
            const ALIGN: usize = align_of::<$a>();
            const KINDS: &'static [K] = &[$k];
            const NATIVES: u8 = 2;
            fn make(e: E) -> Box<Self::T> {
                Box::new($d::new(e.id, e.salt))
            }
            fn same(v: &Self::T, e: E) -> bool {
                v.is(e.id, e.salt)
            }
            fn rewrite(v: &mut Self::T, e: E) {
                v.rewrite(e.id, e.salt)
            }
            fn push_un(v: &mut UnsizedVec<Self::T>, e: E) {
                v.push($d::new(e.id, e.salt));
            }
            fn ins_un(v: &mut UnsizedVec<Self::T>, i: usize, e: E) {
                v.insert(i, $d::new(e.id, e.salt));
            }
            fn native<C: Use<Self::T>>(e: E, which: u8, c: C) -> C::Out {
                match which {
                    0 => c.go(Emplacable::from($d::<$n, $a>::new(e.id, e.salt))),
                    _ => {
                        let a: [Emplacable<Self::T, _>; 1] = [Emplacable::from($d::new(e.id, e.salt))];
                        let a: Emplacable<[Self::T; 1], _> = a.into();
                        let [x] = a.get();
                        c.go(Emplacable::from(x))
                    }
                }
            }
            fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<Self::T>> {
                let mut v = Vec::with_capacity(n + extra);
                for i in 0..n {
                    v.push($d::new(e.id + i as u8, e.salt));
                }
                Some(UnsizedVec::from(v))
            }
        }
    };
}
sized_fam!(S8, "sized8", D, 8, u64, k!(8, 8, 1));
sized_fam!(S1, "sized1", D, 1, u8, k!(1, 1, 1));
sized_fam!(S3, "sized3", D, 3, u8, k!(3, 1, 1));
sized_fam!(S16, "sized16a16", D, 16, Al16, k!(16, 16, 1));
sized_fam!(SZ, "sizedzst", D, 0, u8, k!(0, 1, 1, z));
// without drop glue
sized_fam!(SP, "plain", P, 4, u32, k!(4, 4, 0));

// ---------------------------------------------------------------- slices of tracked values

macro_rules! slice_fam {
    ($f:ident, $name:literal, $d:ident, $n:literal, $a:ty, [$($i:literal => $len:literal),*], $kinds:expr) => {
        pub struct $f;
        impl $f {
            pub fn arr<const L: usize>(e: E) -> [$d<$n, $a>; L] {
                std::array::from_fn(|j| $d::new(e.id, e.salt.wrapping_add(j as u8)))
            }
            pub fn vec(e: E, extra: usize) -> Vec<$d<$n, $a>> {
                let len = match e.kind { $($i => $len,)* _ => unreachable!() };
                let mut v = Vec::with_capacity(len + extra);
                for j in 0..len { v.push($d::new(e.id, e.salt.wrapping_add(j as u8))); }
                v
            }
        }
        impl Fam for $f {
            type T = [$d<$n, $a>];
            const NAME: &'static str = $name;
            const CLS: Cls = Cls::Aligned;
            const ALIGN: usize = align_of::<$a>();
            const KINDS: &'static [K] = $kinds;
            const NATIVES: u8 = 6;
            fn make(e: E) -> Box<Self::T> {
                match e.kind { $($i => Box::new(Self::arr::<$len>(e)),)* _ => unreachable!() }
            }
            fn same(v: &Self::T, e: E) -> bool {
                let len = match e.kind { $($i => $len,)* _ => unreachable!() };
                v.len() == len && v.iter().enumerate().all(|(j, d)| d.is(e.id, e.salt.wrapping_add(j as u8)))
            }
            fn rewrite(v: &mut Self::T, e: E) {
                for (j, d) in v.iter_mut().enumerate() { d.rewrite(e.id, e.salt.wrapping_add(j as u8)); }
            }
            fn push_un(v: &mut UnsizedVec<Self::T>, e: E) {
                match e.kind { $($i => v.push_unsize(Self::arr::<$len>(e)),)* _ => unreachable!() }
            }
            fn ins_un(v: &mut UnsizedVec<Self::T>, i: usize, e: E) {
                match e.kind { $($i => v.insert_unsize(i, Self::arr::<$len>(e)),)* _ => unreachable!() }
            }
            fn native<C: Use<Self::T>>(e: E, which: u8, c: C) -> C::Out {
                match which {
                    0 => match e.kind {
                        $($i => c.go(Emplacable::from(Self::arr::<$len>(e)).into()),)*
                        _ => unreachable!()
                    },
                    1 => c.go(Self::vec(e, 0).into()),
                    2 => c.go(Self::vec(e, 3).into()),
                    3 => {
                        let v = Self::vec(e, 1);
                        c.go(Emplacable::from_iter(v.into_iter().map(|d| { tick(); Emplacable::from(d) })))
                    }
                    4 => match e.kind {
                        $($i => c.go(Self::arr::<$len>(e).map(Emplacable::from).into()),)*
                        _ => unreachable!()
                    },
                    _ => {
                        let v = Self::vec(e, 0);
                        let r = c.go(v.as_slice().into());
                        drop(v);
                        r
                    }
                }
            }
            fn with_sized<C: SizedUse<Self::T>>(e: E, c: C) -> Option<C::Out> {
                match e.kind { $($i => Some(c.go(Self::arr::<$len>(e))),)* _ => unreachable!() }
            }
            fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<Self::T>> {
                match e.kind { $($i => {
                    let mut v: Vec<[$d<$n, $a>; $len]> = Vec::with_capacity(n + extra);
                    for i in 0..n { v.push(Self::arr::<$len>(E { id: e.id + i as u8, ..e })); }
                    Some(UnsizedVec::from(v).unsize())
                })* _ => None }
            }
        }
    };
}
slice_fam!(L8, "slice8", D, 8, u64, [0 => 0, 1 => 1, 2 => 2, 3 => 5, 4 => 40],
    &[k!(0, 8, 0), k!(8, 8, 1), k!(16, 8, 2), k!(40, 8, 5), k!(320, 8, 40)]);
slice_fam!(L3, "slice3", D, 3, u8, [0 => 0, 1 => 1, 2 => 2, 3 => 5, 4 => 100],
    &[k!(0, 1, 0), k!(3, 1, 1), k!(6, 1, 2), k!(15, 1, 5), k!(300, 1, 100)]);
slice_fam!(L16, "slice16a16", D, 16, Al16, [0 => 0, 1 => 1, 2 => 3],
    &[k!(0, 16, 0), k!(16, 16, 1), k!(48, 16, 3)]);
slice_fam!(LZ, "slicezst", D, 0, u8, [0 => 0, 1 => 1, 2 => 3],
    &[k!(0, 1, 0, z), k!(0, 1, 1, z), k!(0, 1, 3, z)]);
// without drop glue
slice_fam!(LP, "sliceplain", P, 4, u32, [0 => 0, 1 => 1, 2 => 2, 3 => 5],
    &[k!(0, 4, 0), k!(4, 4, 0), k!(8, 4, 0), k!(20, 4, 0)]);

// ---------------------------------------------------------------- plain bytes and strings

fn bytes(e: E, len: usize) -> Vec<u8> {
    (0..len).map(|j| pat(e.id, e.salt, j)).collect()
}
/// Text of exactly `len` bytes, with multi-byte characters where they fit.
fn text(e: E, len: usize) -> String {
    let mut s = String::new();
    let mut j = 0;
    while s.len() < len {
        let b = pat(e.id, e.salt, j);
        if len - s.len() >= 2 && b % 3 == 0 {
            s.push(char::from_u32(0xC0 + (b as u32 % 0x30)).unwrap());
        } else {
            s.push((0x21 + b % 90) as char);
        }
        j += 1;
    }
    s
}

pub struct LU8;
impl LU8 {
    const LENS: [usize; 5] = [0, 1, 3, 8, 300];
}
impl Fam for LU8 {
    type T = [u8];
    const NAME: &'static str = "sliceu8";
    const CLS: Cls = Cls::Aligned;
    const ALIGN: usize = 1;
    const KINDS: &'static [K] = &[k!(0, 1, 0), k!(1, 1, 0), k!(3, 1, 0), k!(8, 1, 0), k!(300, 1, 0)];
    const NATIVES: u8 = 3;
    fn make(e: E) -> Box<[u8]> {
        bytes(e, Self::LENS[e.kind as usize]).into()
    }
    fn same(v: &[u8], e: E) -> bool {
        v.len() == Self::LENS[e.kind as usize] && v.iter().enumerate().all(|(j, &b)| b == pat(e.id, e.salt, j))
    }
    fn rewrite(v: &mut [u8], e: E) {
        for (j, b) in v.iter_mut().enumerate() {
            *b = pat(e.id, e.salt, j);
        }
    }
    fn push_un(v: &mut UnsizedVec<[u8]>, e: E) {
        match e.kind {
            0 => v.push_unsize([0u8; 0]),
            1 => v.push_unsize([pat(e.id, e.salt, 0)]),
            2 => v.push_unsize::<[u8; 3]>(std::array::from_fn(|j| pat(e.id, e.salt, j))),
            3 => v.push_unsize::<[u8; 8]>(std::array::from_fn(|j| pat(e.id, e.salt, j))),
            _ => v.push_unsize::<[u8; 300]>(std::array::from_fn(|j| pat(e.id, e.salt, j))),
        }
    }
    fn ins_un(v: &mut UnsizedVec<[u8]>, i: usize, e: E) {
        match e.kind {
            0 => v.insert_unsize(i, [0u8; 0]),
            1 => v.insert_unsize(i, [pat(e.id, e.salt, 0)]),
            2 => v.insert_unsize::<[u8; 3]>(i, std::array::from_fn(|j| pat(e.id, e.salt, j))),
            3 => v.insert_unsize::<[u8; 8]>(i, std::array::from_fn(|j| pat(e.id, e.salt, j))),
            _ => v.insert_unsize::<[u8; 300]>(i, std::array::from_fn(|j| pat(e.id, e.salt, j))),
        }
    }
    fn native<C: Use<[u8]>>(e: E, which: u8, c: C) -> C::Out {
        let len = Self::LENS[e.kind as usize];
        match which {
            0 => {
                let b = untracked(|| bytes(e, len));
                let r = c.go(b.as_slice().into());
                untracked(|| drop(b));
                r
            }
            1 => c.go(bytes(e, len).into()),
            _ => {
                let mut v = Vec::with_capacity(len + 5);
                v.extend(untracked(|| bytes(e, len)));
                c.go(v.into())
            }
        }
    }
    fn with_sized<C: SizedUse<[u8]>>(e: E, c: C) -> Option<C::Out> {
        fn a<const L: usize>(e: E) -> [u8; L] {
            std::array::from_fn(|j| pat(e.id, e.salt, j))
        }
        Some(match e.kind {
            0 => c.go(a::<0>(e)),
            1 => c.go(a::<1>(e)),
            2 => c.go(a::<3>(e)),
            3 => c.go(a::<8>(e)),
            _ => c.go(a::<300>(e)),
        })
    }
    fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<[u8]>> {
        fn go<const L: usize>(e: E, n: usize, extra: usize) -> UnsizedVec<[u8]> {
            let mut v: Vec<[u8; L]> = Vec::with_capacity(n + extra);
            for i in 0..n {
                v.push(std::array::from_fn(|j| pat(e.id + i as u8, e.salt, j)));
            }
            UnsizedVec::from(v).unsize()
        }
        Some(match e.kind {
            0 => go::<0>(e, n, extra),
            1 => go::<1>(e, n, extra),
            2 => go::<3>(e, n, extra),
            3 => go::<8>(e, n, extra),
            _ => go::<300>(e, n, extra),
        })
    }
}

macro_rules! text_fam {
    ($f:ident, $name:literal, $t:ty, $cls:expr, [$($len:literal),*], $kinds:expr, $borrow:expr, $own:expr, $bytes:expr) => {
        pub struct $f;
        impl $f {
            const LENS: &'static [usize] = &[$($len),*];
        }
        impl Fam for $f {
            type T = $t;
            const NAME: &'static str = $name;
            const CLS: Cls = $cls;
            const ALIGN: usize = 1;
            const KINDS: &'static [K] = $kinds;
            const NATIVES: u8 = 1;
            fn make(e: E) -> Box<$t> {
                let own: fn(String) -> Box<$t> = $own;
                own(text(e, Self::LENS[e.kind as usize]))
            }
            fn same(v: &$t, e: E) -> bool {
                let b: fn(&$t) -> &[u8] = $bytes;
                untracked(|| b(v) == text(e, Self::LENS[e.kind as usize]).as_bytes())
            }
            fn rewrite(v: &mut $t, e: E) {
                let t = untracked(|| Self::make(e));
                unsafe {
                    ptr::copy_nonoverlapping(
                        (&raw const *t).cast::<u8>(), (&raw mut *v).cast::<u8>(), size_of_val(v));
                }
                untracked(|| drop(t));
            }
            fn native<C: Use<$t>>(e: E, _: u8, c: C) -> C::Out {
                let b = untracked(|| Self::make(e));
                let r = { let s: &$t = &b; c.go(s.into()) };
                untracked(|| drop(b));
                r
            }
        }
    };
}
text_fam!(STR, "str", str, Cls::Aligned, [0, 1, 3, 9],
    &[k!(0, 1, 0), k!(1, 1, 0), k!(3, 1, 0), k!(9, 1, 0)],
    (), |s| s.into_boxed_str(), |v| v.as_bytes());
text_fam!(CSTR, "cstr", CStr, Cls::Aligned, [0, 2, 7],
    &[k!(1, 1, 0), k!(3, 1, 0), k!(8, 1, 0)],
    (), |s| CString::new(s).unwrap().into_boxed_c_str(), |v| v.to_bytes());
text_fam!(OSSTR, "osstr", OsStr, Cls::Unaligned, [0, 1, 5],
    &[k!(0, 1, 0), k!(1, 1, 0), k!(5, 1, 0)],
    (), |s| OsString::from(s).into_boxed_os_str(), |v| v.as_encoded_bytes());
text_fam!(PATH, "path", Path, Cls::Unaligned, [0, 1, 5],
    &[k!(0, 1, 0), k!(1, 1, 0), k!(5, 1, 0)],
    (), |s| PathBuf::from(s).into_boxed_path(), |v| v.as_os_str().as_encoded_bytes());

// ---------------------------------------------------------------- trait objects

macro_rules! dyn_fam {
    ($f:ident, $name:literal, [$($i:literal => $n:literal, $a:ty);*], $kinds:expr) => {
        pub struct $f;
        impl Fam for $f {
            type T = dyn Tr;
            const NAME: &'static str = $name;
            const CLS: Cls = Cls::Unaligned;
            const ALIGN: usize = 1;
            const KINDS: &'static [K] = $kinds;
            const NATIVES: u8 = 1;
            fn make(e: E) -> Box<dyn Tr> {
                match e.kind { $($i => Box::new(D::<$n, $a>::new(e.id, e.salt)),)* _ => unreachable!() }
            }
            fn same(v: &Self::T, e: E) -> bool {
                let k = Self::KINDS[e.kind as usize];
                v.shape() == (k.size, k.align) && v.is_(e.id, e.salt)
            }
            fn rewrite(v: &mut Self::T, e: E) {
                v.put_(e.id, e.salt)
            }
            fn push_un(v: &mut UnsizedVec<dyn Tr>, e: E) {
                match e.kind { $($i => v.push_unsize(D::<$n, $a>::new(e.id, e.salt)),)* _ => unreachable!() }
            }
            fn ins_un(v: &mut UnsizedVec<dyn Tr>, i: usize, e: E) {
                match e.kind { $($i => v.insert_unsize(i, D::<$n, $a>::new(e.id, e.salt)),)* _ => unreachable!() }
            }
            fn native<C: Use<dyn Tr>>(e: E, _: u8, c: C) -> C::Out {
                match e.kind {
                    $($i => c.go(Emplacable::from(D::<$n, $a>::new(e.id, e.salt)).unsize::<dyn Tr>()),)*
                    _ => unreachable!()
                }
            }
            fn with_sized<C: SizedUse<dyn Tr>>(e: E, c: C) -> Option<C::Out> {
                match e.kind { $($i => Some(c.go(D::<$n, $a>::new(e.id, e.salt))),)* _ => unreachable!() }
            }
            fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<dyn Tr>> {
                match e.kind { $($i => {
                    let mut v: Vec<D<$n, $a>> = Vec::with_capacity(n + extra);
                    for i in 0..n { v.push(D::new(e.id + i as u8, e.salt)); }
                    Some(UnsizedVec::from(v).unsize())
                })* _ => None }
            }
        }
    };
}
// Small sizes and alignments up to 16: most of the interplay of size and padding.
dyn_fam!(DYN, "dyn",
    [0 => 8, u64; 1 => 3, u8; 2 => 16, Al16; 3 => 0, u8; 4 => 1, u8; 5 => 24, u64],
    &[k!(8, 8, 1), k!(3, 1, 1), k!(16, 16, 1), k!(0, 1, 1, z), k!(1, 1, 1), k!(24, 8, 1)]);
// Larger alignments, zero-sized over-aligned values, and a big value.
dyn_fam!(DYNB, "dynbig",
    [0 => 3, u8; 1 => 64, Al64; 2 => 0, Al32; 3 => 12, u32; 4 => 300, u8; 5 => 16, Al16; 6 => 2, u16],
    &[k!(3, 1, 1), k!(64, 64, 1), k!(0, 32, 1, z), k!(12, 4, 1), k!(300, 1, 1), k!(16, 16, 1), k!(2, 2, 1)]);
// Alignments of a page, and values larger than one.
dyn_fam!(DYNH, "dynhuge",
    [0 => 1, u8; 1 => 128, Al128; 2 => 0, Al1k; 3 => 4096, Al4k; 4 => 5000, u8],
    &[k!(1, 1, 1), k!(128, 128, 1), k!(0, 1024, 1, z), k!(4096, 4096, 1), k!(5000, 1, 1)]);

// ---------------------------------------------------------------- user-defined unsized types

pub struct WB;
impl WB {
    const LENS: [usize; 4] = [0, 1, 4, 9];
    fn arr<const L: usize>(e: E) -> Wrap<[u8; L]> {
        Wrap { h: D::new(e.id, e.salt), t: std::array::from_fn(|j| pat(e.id, e.salt, j)) }
    }
}
macro_rules! wb {
    ($e:expr, $L:ident => $x:expr) => {
        match $e.kind {
            0 => { const $L: usize = 0; $x }
            1 => { const $L: usize = 1; $x }
            2 => { const $L: usize = 4; $x }
            _ => { const $L: usize = 9; $x }
        }
    };
}
impl Fam for WB {
    type T = Wrap<[u8]>;
    const NAME: &'static str = "wrapbytes";
    const CLS: Cls = Cls::Unaligned;
    const ALIGN: usize = 1;
    // repr(C), alignment 2: head 4, then the tail, rounded up to 2
    const KINDS: &'static [K] = &[k!(4, 2, 1), k!(6, 2, 1), k!(8, 2, 1), k!(14, 2, 1)];
    const NATIVES: u8 = 1;
    fn make(e: E) -> Box<Self::T> {
        wb!(e, L => Box::new(Self::arr::<L>(e)))
    }
    fn same(v: &Self::T, e: E) -> bool {
        v.h.is(e.id, e.salt)
            && v.t.len() == Self::LENS[e.kind as usize]
            && v.t.iter().enumerate().all(|(j, &b)| b == pat(e.id, e.salt, j))
    }
    fn rewrite(v: &mut Self::T, e: E) {
        v.h.rewrite(e.id, e.salt);
        for (j, b) in v.t.iter_mut().enumerate() {
            *b = pat(e.id, e.salt, j);
        }
    }
    fn push_un(v: &mut UnsizedVec<Self::T>, e: E) {
        wb!(e, L => v.push_unsize(Self::arr::<L>(e)))
    }
    fn ins_un(v: &mut UnsizedVec<Self::T>, i: usize, e: E) {
        wb!(e, L => v.insert_unsize(i, Self::arr::<L>(e)))
    }
    fn native<C: Use<Self::T>>(e: E, _: u8, c: C) -> C::Out {
        wb!(e, L => c.go(Emplacable::from(Self::arr::<L>(e)).unsize::<Wrap<[u8]>>()))
    }
    fn with_sized<C: SizedUse<Self::T>>(e: E, c: C) -> Option<C::Out> {
        wb!(e, L => Some(c.go(Self::arr::<L>(e))))
    }
    fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<Self::T>> {
        wb!(e, L => {
            let mut v: Vec<Wrap<[u8; L]>> = Vec::with_capacity(n + extra);
            for i in 0..n { v.push(Self::arr::<L>(E { id: e.id + i as u8, ..e })); }
            Some(UnsizedVec::from(v).unsize())
        })
    }
}

/// A trait object behind a header: alignment, offset of the tail and size all depend on the value.
pub struct WD;
macro_rules! wd {
    ($e:expr, $t:ident => $x:expr) => {
        match $e.kind {
            0 => { type $t = D<1, u8>; $x }
            1 => { type $t = D<8, u64>; $x }
            2 => { type $t = Pad16; $x }
            _ => { type $t = D<16, Al16>; $x }
        }
    };
}
pub trait Tail {
    fn tail(e: E) -> Self;
}
impl<const N: usize, A> Tail for D<N, A> {
    fn tail(e: E) -> Self {
        D::new(e.id, e.salt)
    }
}
impl Tail for Pad16 {
    fn tail(_: E) -> Self {
        Pad16([])
    }
}
impl WD {
    fn w<X: Tail>(e: E) -> Wrap<X> {
        Wrap { h: D::new(e.id, e.salt), t: X::tail(e) }
    }
}
impl Fam for WD {
    type T = Wrap<dyn Tr>;
    const NAME: &'static str = "wrapdyn";
    const CLS: Cls = Cls::Unaligned;
    const ALIGN: usize = 1;
    const KINDS: &'static [K] = &[k!(6, 2, 2), k!(16, 8, 2), k!(16, 16, 1), k!(32, 16, 2)];
    const NATIVES: u8 = 1;
    fn make(e: E) -> Box<Self::T> {
        wd!(e, X => { let b: Box<Wrap<X>> = Box::new(Self::w(e)); b })
    }
    fn same(v: &Self::T, e: E) -> bool {
        let want = match e.kind { 0 => (1, 1), 1 => (8, 8), 2 => (0, 16), _ => (16, 16) };
        v.h.is(e.id, e.salt) && v.t.shape() == want && v.t.is_(e.id, e.salt)
    }
    fn rewrite(v: &mut Self::T, e: E) {
        v.h.rewrite(e.id, e.salt);
        v.t.put_(e.id, e.salt);
    }
    fn push_un(v: &mut UnsizedVec<Self::T>, e: E) {
        wd!(e, X => { let w: Wrap<X> = Self::w(e); v.push_unsize(w) })
    }
    fn ins_un(v: &mut UnsizedVec<Self::T>, i: usize, e: E) {
        wd!(e, X => { let w: Wrap<X> = Self::w(e); v.insert_unsize(i, w) })
    }
    fn native<C: Use<Self::T>>(e: E, _: u8, c: C) -> C::Out {
        wd!(e, X => { let w: Wrap<X> = Self::w(e); c.go(Emplacable::from(w).unsize::<Wrap<dyn Tr>>()) })
    }
    fn with_sized<C: SizedUse<Self::T>>(e: E, c: C) -> Option<C::Out> {
        wd!(e, X => { let w: Wrap<X> = Self::w(e); Some(c.go(w)) })
    }
    fn from_vec(e: E, n: usize, extra: usize) -> Option<UnsizedVec<Self::T>> {
        wd!(e, X => {
            let mut v: Vec<Wrap<X>> = Vec::with_capacity(n + extra);
            for i in 0..n { v.push(Self::w(E { id: e.id + i as u8, ..e })); }
            Some(UnsizedVec::from(v).unsize())
        })
    }
}

pub type Ph<T> = PhantomData<T>;

/// `$x` for the family called `$name`, whichever worker this is.
macro_rules! for_family {
    ($name:expr, $F:ident => $x:expr) => {{
        use $crate::fam::*;
        match $name {
            "sized8" => { type $F = S8; $x }
            "sized1" => { type $F = S1; $x }
            "sized3" => { type $F = S3; $x }
            "sized16a16" => { type $F = S16; $x }
            "sizedzst" => { type $F = SZ; $x }
            "slice8" => { type $F = L8; $x }
            "slice3" => { type $F = L3; $x }
            "slice16a16" => { type $F = L16; $x }
            "slicezst" => { type $F = LZ; $x }
            "sliceu8" => { type $F = LU8; $x }
            "str" => { type $F = STR; $x }
            "cstr" => { type $F = CSTR; $x }
            "osstr" => { type $F = OSSTR; $x }
            "path" => { type $F = PATH; $x }
            "dyn" => { type $F = DYN; $x }
            "dynbig" => { type $F = DYNB; $x }
            "wrapbytes" => { type $F = WB; $x }
            "wrapdyn" => { type $F = WD; $x }
            "plain" => { type $F = SP; $x }
            "sliceplain" => { type $F = LP; $x }
            "dynhuge" => { type $F = DYNH; $x }
            other => panic!("unknown family {other}"),
        }
    }};
}
/// `$x` for the family called `$name`, which must be one this worker has.
macro_rules! for_mine {
    ($name:expr, $F:ident => $x:expr) => {{
        use $crate::fam::*;
        match $name {
            "sized8" => group!(a { type $F = S8; $x }),
            "sized1" => group!(a { type $F = S1; $x }),
            "sized3" => group!(a { type $F = S3; $x }),
            "sized16a16" => group!(a { type $F = S16; $x }),
            "sizedzst" => group!(a { type $F = SZ; $x }),
            "slice8" => group!(b { type $F = L8; $x }),
            "slice3" => group!(b { type $F = L3; $x }),
            "slice16a16" => group!(b { type $F = L16; $x }),
            "slicezst" => group!(b { type $F = LZ; $x }),
            "sliceu8" => group!(b { type $F = LU8; $x }),
            "str" => group!(c { type $F = STR; $x }),
            "cstr" => group!(c { type $F = CSTR; $x }),
            "osstr" => group!(c { type $F = OSSTR; $x }),
            "path" => group!(c { type $F = PATH; $x }),
            "dyn" => group!(d { type $F = DYN; $x }),
            "dynbig" => group!(d { type $F = DYNB; $x }),
            "wrapbytes" => group!(c { type $F = WB; $x }),
            "wrapdyn" => group!(d { type $F = WD; $x }),
            "plain" => group!(a { type $F = SP; $x }),
            "sliceplain" => group!(d { type $F = LP; $x }),
            "dynhuge" => group!(d { type $F = DYNH; $x }),
            other => panic!("unknown family {other}"),
        }
    }};
}
/// Which workers have a family.
pub fn group(f: &str) -> &'static str {
    match f {
        "sized8" | "sized1" | "sized3" | "sized16a16" | "sizedzst" | "plain" => "a",
        "slice8" | "slice3" | "slice16a16" | "slicezst" | "sliceu8" => "b",
        "str" | "cstr" | "osstr" | "path" | "wrapbytes" => "c",
        _ => "d",
    }
}
pub const FAMILIES: &[&str] = &[
    "sized8", "sized1", "sized3", "sized16a16", "sizedzst", "slice8", "slice3", "slice16a16",
    "slicezst", "sliceu8", "str", "cstr", "osstr", "path", "dyn", "dynbig", "wrapbytes", "wrapdyn",
    "plain", "sliceplain", "dynhuge",
];
