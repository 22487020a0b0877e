//! Element types: every tracked value knows its identity, checks its own bytes when it is
//! dropped, and is counted in the registry of live values.

use crate::rt::{born, corrupt_drop, died, tick, zslot};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// What a value is: its kind (family-specific shape), identity and mutation count.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct E {
    pub kind: u8,
    pub id: u8,
    pub salt: u8,
}

#[inline]
pub fn pat(id: u8, salt: u8, j: usize) -> u8 {
    id.wrapping_mul(31) ^ salt.wrapping_mul(17).wrapping_add(3) ^ (j as u8).wrapping_mul(7)
}

/// `N` bytes at the alignment of `A`.
#[repr(C)]
pub struct D<const N: usize, A> {
    a: [A; 0],
    b: [u8; N],
}
#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Al16(#[allow(dead_code)] u8);
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Al32(#[allow(dead_code)] u8);
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Al64(#[allow(dead_code)] u8);
#[derive(Clone, Copy)]
#[repr(align(128))]
pub struct Al128(#[allow(dead_code)] u8);
#[derive(Clone, Copy)]
#[repr(align(1024))]
pub struct Al1k(#[allow(dead_code)] u8);
#[derive(Clone, Copy)]
#[repr(align(4096))]
pub struct Al4k(#[allow(dead_code)] u8);

impl<const N: usize, A> D<N, A> {
    const SIZE_IS_N: () = assert!(size_of::<Self>() == N);
    fn slot(&self) -> usize {
        if N == 0 { zslot(align_of::<A>()) } else { self.b[0] as usize }
    }
    pub fn new(id: u8, salt: u8) -> Self {
        let () = Self::SIZE_IS_N;
        let mut d = D { a: [], b: [0; N] };
        d.put(id, salt);
        born(d.slot());
        d
    }
    fn put(&mut self, id: u8, salt: u8) {
        for j in 0..N {
            self.b[j] = match j {
                0 => id,
                1 => salt,
                _ => pat(id, salt, j),
            };
        }
    }
    fn intact(&self) -> bool {
        let salt = if N > 1 { self.b[1] } else { 0 };
        (2..N).all(|j| self.b[j] == pat(self.b[0], salt, j))
    }
    #[inline]
    pub fn is(&self, id: u8, salt: u8) -> bool {
        let p = self as *const Self as usize;
        p % align_of::<A>() == 0
            && (N == 0 || self.b[0] == id)
            && (N < 2 || self.b[1] == salt)
            && self.intact()
    }
    pub fn id(&self) -> u8 {
        if N == 0 { 0 } else { self.b[0] }
    }
}
impl<const N: usize, A> Drop for D<N, A> {
    fn drop(&mut self) {
        if !self.intact() || (self as *const Self as usize) % align_of::<A>() != 0 {
            corrupt_drop(self.slot());
        }
        died(self.slot());
        tick();
    }
}
impl<const N: usize, A> Clone for D<N, A> {
    fn clone(&self) -> Self {
        tick();
        D::new(self.id(), if N > 1 { self.b[1] } else { 0 })
    }
}
impl<const N: usize, A> Debug for D<N, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "D{}({})", N, self.id())
    }
}
impl<const N: usize, A> PartialEq for D<N, A> {
    fn eq(&self, o: &Self) -> bool {
        self.id() == o.id()
    }
}
impl<const N: usize, A> Eq for D<N, A> {}
impl<const N: usize, A> Hash for D<N, A> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id().hash(h)
    }
}

/// The trait of the trait-object families.
pub trait Tr {
    /// Size and alignment of the concrete type.
    fn shape(&self) -> (usize, usize);
    fn is_(&self, id: u8, salt: u8) -> bool;
    fn put_(&mut self, id: u8, salt: u8);
}
impl<const N: usize, A> Tr for D<N, A> {
    fn shape(&self) -> (usize, usize) {
        (N, align_of::<A>())
    }
    fn is_(&self, id: u8, salt: u8) -> bool {
        self.is(id, salt)
    }
    fn put_(&mut self, id: u8, salt: u8) {
        self.put(id, salt)
    }
}
impl<const N: usize, A> D<N, A> {
    pub fn rewrite(&mut self, id: u8, salt: u8) {
        self.put(id, salt)
    }
}

/// `N` bytes at the alignment of `A`, without drop glue: `needs_drop` is false, and copies
/// are not counted.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct P<const N: usize, A: Copy> {
    a: [A; 0],
    b: [u8; N],
}
impl<const N: usize, A: Copy> P<N, A> {
    pub fn new(id: u8, salt: u8) -> Self {
        let mut p = P { a: [], b: [0; N] };
        p.rewrite(id, salt);
        p
    }
    pub fn rewrite(&mut self, id: u8, salt: u8) {
        for j in 0..N {
            self.b[j] = match j {
                0 => id,
                1 => salt,
                _ => pat(id, salt, j),
            };
        }
    }
    pub fn is(&self, id: u8, salt: u8) -> bool {
        let p = self as *const Self as usize;
        p % align_of::<A>() == 0
            && (0..N).all(|j| self.b[j] == match j { 0 => id, 1 => salt, _ => pat(id, salt, j) })
    }
    pub fn id(&self) -> u8 {
        if N == 0 { 0 } else { self.b[0] }
    }
}
impl<const N: usize, A: Copy> Debug for P<N, A> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "P{}({})", N, self.id())
    }
}
impl<const N: usize, A: Copy> PartialEq for P<N, A> {
    fn eq(&self, o: &Self) -> bool {
        self.id() == o.id()
    }
}
impl<const N: usize, A: Copy> Eq for P<N, A> {}
impl<const N: usize, A: Copy> Hash for P<N, A> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.id().hash(h)
    }
}
impl<const N: usize, A: Copy> Tr for P<N, A> {
    fn shape(&self) -> (usize, usize) {
        (N, align_of::<A>())
    }
    fn is_(&self, id: u8, salt: u8) -> bool {
        self.is(id, salt)
    }
    fn put_(&mut self, id: u8, salt: u8) {
        self.rewrite(id, salt)
    }
}

/// A user-defined type with an unsized tail.
#[repr(C)]
pub struct Wrap<T: ?Sized> {
    pub h: D<4, u16>,
    pub t: T,
}

/// A zero-sized, over-aligned tail without identity.
pub struct Pad16(pub [Al16; 0]);
impl Tr for Pad16 {
    fn shape(&self) -> (usize, usize) {
        (0, 16)
    }
    fn is_(&self, _: u8, _: u8) -> bool {
        (self as *const Self as usize) % 16 == 0
    }
    fn put_(&mut self, _: u8, _: u8) {}
}
