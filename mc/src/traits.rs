//! Comparison, hashing, formatting, serialization, cloning: all pairs of short lists over
//! small alphabets, in every internal configuration, against the same thing done on the
//! elements as a plain list.

use crate::cases::*;
use crate::rt::*;
use crate::talloc::{self, untracked};
use crate::vecdrv::Stats;
use emplacable::Emplacable;
use serde::ser::{self, Serialize, SerializeSeq};
use std::cmp::Ordering;
use std::ffi::OsStr;
use std::fmt::{self, Debug};
use std::hash::{Hash, Hasher};
use std::path::Path;
use unsized_vec::UnsizedVec;

// ---------------------------------------------------------------- element types

/// Trait objects compared by rank, whatever their concrete type.
pub trait Ranked {
    fn rank(&self) -> u8;
}
macro_rules! ranked {
    ($n:ident, $t:ty, $r:expr) => {
        pub struct $n(#[allow(dead_code)] $t);
        impl Ranked for $n {
            fn rank(&self) -> u8 {
                $r
            }
        }
    };
}
ranked!(R0, u8, 0);
ranked!(R1, u64, 1);
ranked!(R2, [u8; 40], 2);
ranked!(R1b, crate::elem::Al16, 1);
impl PartialEq for dyn Ranked {
    fn eq(&self, o: &Self) -> bool {
        self.rank() == o.rank()
    }
}
impl Eq for dyn Ranked {}
impl PartialOrd for dyn Ranked {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for dyn Ranked {
    fn cmp(&self, o: &Self) -> Ordering {
        self.rank().cmp(&o.rank())
    }
}
impl Hash for dyn Ranked {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.rank())
    }
}
impl Debug for dyn Ranked {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Ranked").field("rank", &self.rank()).finish()
    }
}
impl Serialize for dyn Ranked {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.rank())
    }
}

/// A user type with an unsized tail.
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
#[repr(C)]
pub struct Tail<T: ?Sized> {
    h: u16,
    t: T,
}
impl<T: ?Sized + Serialize> Serialize for Tail<T> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.t.serialize(s)
    }
}

/// Partially ordered, and compared with `Other` by an asymmetric relation.
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
pub struct One(u16);
#[derive(Debug, Clone, Copy, PartialEq, PartialOrd)]
pub struct Other(u64);
impl PartialEq<Other> for One {
    fn eq(&self, o: &Other) -> bool {
        self.0 as u64 + 1 == o.0
    }
}
impl PartialOrd<Other> for One {
    fn partial_cmp(&self, o: &Other) -> Option<Ordering> {
        if o.0 == 9 { None } else { (self.0 as u64 + 1).partial_cmp(&o.0) }
    }
}

/// Serialized by their bytes (serde's own implementations need its `std` feature).
struct ByDebug<'a, T: ?Sized>(&'a T);
impl<T: ?Sized + Debug> Serialize for ByDebug<'_, T> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&format_args!("{:?}", self.0))
    }
}

// ---------------------------------------------------------------- families

pub trait TF: 'static {
    type T: ?Sized + PartialEq + PartialOrd + Debug + 'static;
    const NAME: &'static str;
    const N: u8;
    fn make(i: u8) -> Box<Self::T>;
    fn cmp(_: &UnsizedVec<Self::T>, _: &UnsizedVec<Self::T>) -> Option<Ordering> {
        None
    }
    fn elem_cmp(_: &Self::T, _: &Self::T) -> Option<Ordering> {
        None
    }
    fn hash(_: &UnsizedVec<Self::T>) -> Option<Rec8> {
        None
    }
    fn ser(_: &UnsizedVec<Self::T>, _: usize) -> Option<(bool, Log)> {
        None
    }
    fn ser_elem(_: &Self::T) -> String {
        String::new()
    }
}

/// Records everything hashed.
pub type Rec8 = Vec<u8>;
struct HashRec(Vec<u8>);
impl Hasher for HashRec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        untracked(|| self.0.extend_from_slice(b));
    }
}
fn hash_of<T: Hash + ?Sized>(t: &T) -> Vec<u8> {
    let mut h = HashRec(vec![]);
    t.hash(&mut h);
    h.0
}

macro_rules! tf {
    ($f:ident, $name:literal, $t:ty, [$($x:expr),+] $(, $feat:ident)*) => {
        pub struct $f;
        impl TF for $f {
            type T = $t;
            const NAME: &'static str = $name;
            const N: u8 = [$(stringify!($x)),+].len() as u8;
            fn make(i: u8) -> Box<$t> {
                let mut k = 0u8;
                $(if k == i { return $x; } k += 1;)+
                unreachable!("{k}")
            }
            $(tf!(@$feat $t);)*
        }
    };
    (@ord $t:ty) => {
        fn cmp(a: &UnsizedVec<Self::T>, b: &UnsizedVec<Self::T>) -> Option<Ordering> { Some(a.cmp(b)) }
        fn elem_cmp(a: &Self::T, b: &Self::T) -> Option<Ordering> { Some(a.cmp(b)) }
    };
    (@hash $t:ty) => {
        fn hash(a: &UnsizedVec<Self::T>) -> Option<Rec8> { Some(hash_of(a)) }
    };
    (@ser $t:ty) => {
        fn ser(a: &UnsizedVec<Self::T>, fail: usize) -> Option<(bool, Log)> { Some(serialize(a, fail)) }
        fn ser_elem(a: &Self::T) -> String {
            let mut s = String::new();
            let _ = a.serialize(Leaf(&mut s));
            s
        }
    };
}
tf!(TF64, "f64", f64, [Box::new(f64::NAN), Box::new(-0.0), Box::new(0.0), Box::new(1.5)], ser);
tf!(TU8, "u8", u8, [Box::new(0), Box::new(1), Box::new(255)], ord, hash, ser);
tf!(TUNIT, "unit", (), [Box::new(())], ord, hash, ser);
tf!(TSLF, "[f32]", [f32], [Box::new([]), Box::new([f32::NAN]), Box::new([0.0]), Box::new([0.0, 1.0])], ser);
tf!(TSLB, "[u8]", [u8], [Box::new([]), Box::new([0]), Box::new([0, 0]), Box::new([1])], ord, hash, ser);
tf!(TSLU, "[u32]", [u32], [Box::new([]), Box::new([1]), Box::new([1, 2]), Box::new([0x100, 2])], ord, hash, ser);
tf!(TSLZ, "[()]", [()], [Box::new([]), Box::new([()]), Box::new([(), ()])], ord, hash, ser);
tf!(TSTR, "str", str, ["".into(), "a".into(), "ab".into(), "é".into()], ord, hash, ser);
tf!(TLONG, "str of 299 and more bytes", str, [LONG_STR[..300].into(), LONG_STR[..299].into(), LONG_STR[1..300].into()], ord, hash, ser);
tf!(TPATH, "Path", Path, [Path::new("").into(), Path::new("a").into(), Path::new("a/").into(), Path::new("b").into()], ord, hash);
tf!(TOS, "OsStr", OsStr, [OsStr::new("").into(), OsStr::new("a").into(), OsStr::new("a/").into()], ord, hash);
tf!(TDYN, "dyn Ranked", dyn Ranked,
    [Box::new(R0(7)), Box::new(R1(8)), Box::new(R2([9; 40])), Box::new(R1b(unsafe { std::mem::zeroed() }))], ord, hash, ser);
tf!(TTAIL, "Tail<[u8]>", Tail<[u8]>,
    [Box::new(Tail { h: 1, t: [] }), Box::new(Tail { h: 1, t: [0] }), Box::new(Tail { h: 1, t: [0, 3, 4] }), Box::new(Tail { h: 0, t: [9] })],
    ord, hash, ser);
tf!(TONE, "One", One, [Box::new(One(0)), Box::new(One(1)), Box::new(One(2))]);
tf!(TOTHER, "Other", Other, [Box::new(Other(1)), Box::new(Other(2)), Box::new(Other(9))]);
tf!(TARR, "[u8; 1]", [u8; 1], [Box::new([0]), Box::new([1])], ord, hash, ser);
tf!(TSTRING, "String", String, [Box::new(String::new()), Box::new("a".into()), Box::new("ab".into())], ord, hash);

/// `b` after 299 times `a`, again and again.
const LONG_STR: &str = unsafe {
    static B: [u8; 900] = {
        let mut b = [b'a'; 900];
        let mut i = 299;
        while i < 900 {
            b[i] = b'b';
            i += 300;
        }
        b
    };
    std::str::from_utf8_unchecked(&B)
};

macro_rules! for_tf {
    ($i:expr, $F:ident => $x:expr) => {
        match $i {
            0 => { type $F = TF64; $x }
            1 => { type $F = TU8; $x }
            2 => { type $F = TUNIT; $x }
            3 => { type $F = TSLF; $x }
            4 => { type $F = TSLB; $x }
            5 => { type $F = TSLU; $x }
            6 => { type $F = TSLZ; $x }
            7 => { type $F = TSTR; $x }
            8 => { type $F = TPATH; $x }
            9 => { type $F = TOS; $x }
            10 => { type $F = TDYN; $x }
            11 => { type $F = TTAIL; $x }
            12 => { type $F = TARR; $x }
            13 => { type $F = TLONG; $x }
            _ => { type $F = TSTRING; $x }
        }
    };
}
pub const TFS: u8 = 15;
/// Pairs of element types compared with one another.
macro_rules! for_cross {
    ($i:expr, $F:ident, $G:ident => $x:expr) => {
        match $i {
            0 => { type $F = TONE; type $G = TOTHER; $x }
            1 => { type $F = TOS; type $G = TPATH; $x }
            2 => { type $F = TPATH; type $G = TOS; $x }
            _ => unreachable!(),
        }
    };
}
/// Pairs with equality only.
macro_rules! for_cross_eq {
    ($i:expr, $F:ident, $G:ident => $x:expr) => {
        match $i {
            0 => { type $F = TSLB; type $G = TARR; $x }
            1 => { type $F = TARR; type $G = TSLB; $x }
            2 => { type $F = TSTRING; type $G = TSTR; $x }
            _ => { type $F = TSTR; type $G = TSTRING; $x }
        }
    };
}

// ---------------------------------------------------------------- configurations

pub const CFGS: u8 = 5;
/// The same list, arrived at in different ways.
fn build<F: TF>(cfg: u8, l: &[u8]) -> UnsizedVec<F::T> {
    let mk = |i: u8| untracked(|| F::make(i));
    match cfg {
        0 => {
            let mut v = UnsizedVec::new();
            for &i in l {
                v.push(*mk(i));
            }
            v
        }
        1 => {
            let mut v = UnsizedVec::with_capacity_bytes_align(7, 100, 32);
            for &i in l {
                let b = mk(i);
                v.push_with(Emplacable::<F::T, _>::from(b));
            }
            v
        }
        2 => {
            let mut v = UnsizedVec::new();
            for &i in l.iter().rev() {
                v.insert(0, *mk(i));
            }
            v.shrink_to_fit();
            v
        }
        3 => {
            let mut v = UnsizedVec::new();
            v.push(*mk(F::N - 1));
            for &i in l {
                v.push(*mk(i));
            }
            v.insert(1, *mk(0));
            drop(v.remove_into(0));
            drop(v.remove_into(0));
            v
        }
        _ => {
            // an over-aligned or large neighbour came and went
            let mut v: UnsizedVec<F::T> = l.iter().map(|&i| Emplacable::<F::T, _>::from(mk(i))).collect();
            for i in 0..F::N {
                v.push(*mk(i));
            }
            for _ in 0..F::N {
                drop(v.pop_into());
            }
            v
        }
    }
}

// ---------------------------------------------------------------- serialization

/// What a serializer was told.
#[derive(Default, Debug, PartialEq)]
pub struct Log {
    lens: Vec<Option<usize>>,
    elems: Vec<String>,
    ended: u32,
}
#[derive(Debug)]
struct SErr;
impl fmt::Display for SErr {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl ser::Error for SErr {
    fn custom<T: fmt::Display>(_: T) -> Self {
        SErr
    }
}
impl ser::StdError for SErr {}

macro_rules! refuse {
    ($($m:ident($($t:ty),*);)*) => { $(fn $m(self, $(_: $t),*) -> Result<Self::Ok, SErr> { Err(SErr) })* };
}
macro_rules! refuse_compound {
    () => {
        type SerializeTuple = ser::Impossible<(), SErr>;
        type SerializeTupleStruct = ser::Impossible<(), SErr>;
        type SerializeTupleVariant = ser::Impossible<(), SErr>;
        type SerializeMap = ser::Impossible<(), SErr>;
        type SerializeStruct = ser::Impossible<(), SErr>;
        type SerializeStructVariant = ser::Impossible<(), SErr>;
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SErr> { Err(SErr) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SErr> { Err(SErr) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SErr> { Err(SErr) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SErr> { Err(SErr) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SErr> { Err(SErr) }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), SErr> { Err(SErr) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), SErr> { Err(SErr) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SErr> { Err(SErr) }
    };
}

/// One element, as text.
struct Leaf<'a>(&'a mut String);
macro_rules! leaf {
    ($($m:ident($t:ty);)*) => { $(fn $m(self, v: $t) -> Result<(), SErr> {
        untracked(|| self.0.push_str(&format!("{:?};", v)));
        Ok(())
    })* };
}
struct LeafSeq<'a>(&'a mut String);
impl SerializeSeq for LeafSeq<'_> {
    type Ok = ();
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        v.serialize(Leaf(self.0))
    }
    fn end(self) -> Result<(), SErr> {
        untracked(|| self.0.push(']'));
        Ok(())
    }
}
impl ser::SerializeTuple for LeafSeq<'_> {
    type Ok = ();
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        v.serialize(Leaf(self.0))
    }
    fn end(self) -> Result<(), SErr> {
        Ok(())
    }
}
impl<'a> ser::Serializer for Leaf<'a> {
    type Ok = ();
    type Error = SErr;
    type SerializeSeq = LeafSeq<'a>;
    leaf! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]);
    }
    refuse! { serialize_none(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str); }
    fn serialize_unit(self) -> Result<(), SErr> {
        untracked(|| self.0.push_str("();"));
        Ok(())
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, v: &T) -> Result<(), SErr> {
        untracked(|| self.0.push_str(&format!("{v};")));
        Ok(())
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<LeafSeq<'a>, SErr> {
        untracked(|| self.0.push_str(&format!("[{len:?}:")));
        Ok(LeafSeq(self.0))
    }
    type SerializeTuple = LeafSeq<'a>;
    type SerializeTupleStruct = ser::Impossible<(), SErr>;
    type SerializeTupleVariant = ser::Impossible<(), SErr>;
    type SerializeMap = ser::Impossible<(), SErr>;
    type SerializeStruct = ser::Impossible<(), SErr>;
    type SerializeStructVariant = ser::Impossible<(), SErr>;
    fn serialize_tuple(self, n: usize) -> Result<LeafSeq<'a>, SErr> {
        untracked(|| self.0.push_str(&format!("({n}:")));
        Ok(LeafSeq(self.0))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, SErr> {
        Err(SErr)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, SErr> {
        Err(SErr)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, SErr> {
        Err(SErr)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, SErr> {
        Err(SErr)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, SErr> {
        Err(SErr)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), SErr> {
        Err(SErr)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<(), SErr> {
        Err(SErr)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), SErr> {
        Err(SErr)
    }
}

/// Takes one sequence; the `fail`-th call (of begin, each element, end) returns an error.
struct Top<'a> {
    log: &'a mut Log,
    fail: usize,
    calls: usize,
}
impl Top<'_> {
    fn step(&mut self) -> Result<(), SErr> {
        self.calls += 1;
        if self.calls == self.fail { Err(SErr) } else { Ok(()) }
    }
}
impl SerializeSeq for Top<'_> {
    type Ok = ();
    type Error = SErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), SErr> {
        self.step()?;
        let mut s = String::new();
        v.serialize(Leaf(&mut s))?;
        untracked(|| self.log.elems.push(s.clone()));
        untracked(|| drop(s));
        Ok(())
    }
    fn end(mut self) -> Result<(), SErr> {
        self.step()?;
        self.log.ended += 1;
        Ok(())
    }
}
impl<'a> ser::Serializer for Top<'a> {
    type Ok = ();
    type Error = SErr;
    type SerializeSeq = Top<'a>;
    fn serialize_seq(mut self, len: Option<usize>) -> Result<Top<'a>, SErr> {
        self.step()?;
        untracked(|| self.log.lens.push(len));
        Ok(self)
    }
    refuse! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<(), SErr> {
        Err(SErr)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, SErr> {
        Err(SErr)
    }
    refuse_compound!();
}
fn serialize<T: ?Sized + Serialize>(v: &T, fail: usize) -> (bool, Log) {
    let mut log = Log::default();
    let r = v.serialize(Top { log: &mut log, fail, calls: 0 });
    (r.is_ok(), log)
}

// ---------------------------------------------------------------- checks

fn ord_ops<A: PartialOrd<B>, B>(a: &A, b: &B) -> [bool; 6] {
    [a == b, a != b, a < b, a <= b, a > b, a >= b]
}

fn check_pair<F: TF, G: TF>(a: (u8, &[u8]), b: (u8, &[u8])) -> Res
where
    F::T: PartialOrd<G::T>,
{
    let va = build::<F>(a.0, a.1);
    let vb = build::<G>(b.0, b.1);
    let (ea, eb): (Vec<_>, Vec<_>) = untracked(|| (a.1.iter().map(|&i| F::make(i)).collect(), b.1.iter().map(|&i| G::make(i)).collect()));
    let (ra, rb) = (|| ea.iter().map(|x| &**x), || eb.iter().map(|x| &**x));
    let want = ra().partial_cmp(rb());
    let got = va.partial_cmp(&vb);
    ensure!(got == want, Class::Traits, "partial_cmp is {got:?}, of the lists {want:?}");
    let eq = ra().eq(rb());
    let want = [eq, !eq, ra().lt(rb()), ra().le(rb()), ra().gt(rb()), ra().ge(rb())];
    let got = ord_ops(&va, &vb);
    ensure!(got == want, Class::Traits, "==, !=, <, <=, >, >= are {got:?}, of the lists {want:?}");
    drop(vb);
    drop(va);
    untracked(|| drop((ea, eb)));
    Ok(())
}
fn check_pair_eq<F: TF, G: TF>(a: (u8, &[u8]), b: (u8, &[u8])) -> Res
where
    F::T: PartialEq<G::T>,
{
    let va = build::<F>(a.0, a.1);
    let vb = build::<G>(b.0, b.1);
    let (ea, eb): (Vec<_>, Vec<_>) = untracked(|| (a.1.iter().map(|&i| F::make(i)).collect(), b.1.iter().map(|&i| G::make(i)).collect()));
    let want = ea.iter().map(|x| &**x).eq(eb.iter().map(|x| &**x));
    let got = (va == vb, va != vb);
    ensure!(got == (want, !want), Class::Traits, "==, != are {got:?}, of the lists {want}");
    drop(vb);
    drop(va);
    untracked(|| drop((ea, eb)));
    Ok(())
}

/// What needs one element type: total order and hash.
fn check_same<F: TF>(a: (u8, &[u8]), b: (u8, &[u8])) -> Res {
    check_pair::<F, F>(a, b)?;
    let va = build::<F>(a.0, a.1);
    let vb = build::<F>(b.0, b.1);
    let (ea, eb): (Vec<_>, Vec<_>) = untracked(|| (a.1.iter().map(|&i| F::make(i)).collect(), b.1.iter().map(|&i| F::make(i)).collect()));
    if let Some(got) = F::cmp(&va, &vb) {
        let want = ea.iter().zip(&eb).map(|(x, y)| F::elem_cmp(x, y).unwrap()).find(|o| o.is_ne()).unwrap_or(ea.len().cmp(&eb.len()));
        ensure!(got == want, Class::Traits, "cmp is {got:?}, of the lists {want:?}");
    }
    if let (Some(ha), Some(hb)) = (F::hash(&va), F::hash(&vb)) {
        let eq = ea.iter().map(|x| &**x).eq(eb.iter().map(|x| &**x));
        ensure!(!eq || ha == hb, Class::Traits, "equal vectors hash {ha:?} and {hb:?}");
        // what each element feeds to the hasher is never a prefix of what another one does
        let trivial = size_of_val(&*F::make(0)) == 0 && F::N == 1;
        ensure!(eq || trivial || ha != hb, Class::Traits, "the hash of different vectors is the same: {ha:?}");
        untracked(|| drop((ha, hb)));
    }
    drop(vb);
    drop(va);
    untracked(|| drop((ea, eb)));
    Ok(())
}

/// Formatting and serialization of one list.
fn check_one<F: TF>(cfg: u8, l: &[u8]) -> Res {
    let v = build::<F>(cfg, l);
    let r: Res = untracked(|| {
        let e: Vec<Box<F::T>> = l.iter().map(|&i| F::make(i)).collect();
        let refs: Vec<&F::T> = e.iter().map(|x| &**x).collect();
        for (got, want) in [
            (format!("{v:?}"), format!("{refs:?}")),
            (format!("{v:#?}"), format!("{refs:#?}")),
            (format!("{v:5.2?}"), format!("{refs:5.2?}")),
            (format!("{v:02x?}"), format!("{refs:02x?}")),
        ] {
            ensure!(got == want, Class::Traits, "formatted as {got:?}, the list as {want:?}");
        }
        for fail in 0..l.len() + 3 {
            // of long lists, the calls at both ends and those in the middle
            if l.len() > 40 && !(fail < 4 || fail > l.len() || fail.abs_diff(l.len() / 2) < 2) {
                continue;
            }
            let Some((ok, log)) = F::ser(&v, fail) else { break };
            let want: Vec<String> = refs.iter().map(|x| F::ser_elem(x)).collect();
            let n = if fail == 0 { l.len() } else { (fail.max(2) - 2).min(l.len()) };
            ensure!(ok == (fail == 0 || fail > l.len() + 2), Class::Traits, "serialized with result {ok} when call {fail} fails");
            let lens: &[Option<usize>] = if fail == 1 { &[] } else { &[Some(l.len())] };
            ensure!(log.lens == lens, Class::Traits, "serialized as sequences of length {:?} instead of {lens:?}", log.lens);
            ensure!(log.elems == want[..n], Class::Traits, "serialized elements {:?} instead of {:?}", log.elems, &want[..n]);
            ensure!(log.ended == ok as u32, Class::Traits, "sequence ended {} times", log.ended);
        }
        Ok(())
    });
    r?;
    drop(v);
    Ok(())
}

/// Cloning, for sized elements.
fn check_clone<F: crate::fam::Fam>(n: usize, how: u8, change: u8, from: u8) -> Res
where
    F::T: Sized + Clone,
{
    use crate::elem::E;
    let e = |i: usize, salt| E { kind: 0, id: i as u8 + 1, salt };
    let mut v: UnsizedVec<F::T> = match how {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity(n + 3),
        2 => UnsizedVec::with_capacity_bytes_align(2, 200, 64),
        _ => F::from_vec(e(100, 0), 2, 5).unwrap(),
    };
    while v.pop_into().is_some() {}
    for i in 0..n {
        F::push_un(&mut v, e(i, 3));
    }
    let before = rt().live.clone();
    let mut c = if from > 0 {
        // clone_from, onto something else
        let mut c = UnsizedVec::new();
        for i in 1..from {
            F::push_un(&mut c, e(60 + i as usize, 1));
        }
        c.clone_from(&v);
        c
    } else {
        v.clone()
    };
    for i in 0..n {
        let s = F::toks(e(i, 3)).0;
        ensure!(rt().live[s] == 2 * before[s], Class::Own, "cloning made {} values of {}", rt().live[s], before[s]);
    }
    ensure!(c.len() == n && v.len() == n, Class::Traits, "clone of {n} elements has {}, the original {}", c.len(), v.len());
    if from == 0 {
        ensure!(c.capacity() >= v.capacity() && c.byte_capacity() >= v.byte_capacity() && c.align() >= v.align(), Class::Traits,
            "clone of a vector with capacities {}, {}, {} has {}, {}, {}",
            v.capacity(), v.byte_capacity(), v.align(), c.capacity(), c.byte_capacity(), c.align());
    }
    for i in 0..n {
        ensure!(F::same(&v[i], e(i, 3)) && F::same(&c[i], e(i, 3)), Class::Traits, "element {i} differs after cloning");
        ensure!(size_of::<F::T>() == 0 || !std::ptr::eq(&v[i], &c[i]), Class::Traits, "element {i} is shared");
    }
    // changing one does not change the other
    let (x, y) = if change % 2 == 0 { (&mut v, &mut c) } else { (&mut c, &mut v) };
    match change / 2 {
        0 => {
            for i in 0..n {
                F::rewrite(&mut x[i], e(i, 9));
            }
            for i in 0..n {
                ensure!(F::same(&y[i], e(i, 3)) && F::same(&x[i], e(i, 9)), Class::Traits, "element {i} changed with its clone");
                F::rewrite(&mut x[i], e(i, 3));
            }
        }
        1 => {
            F::ins_un(x, 0, e(80, 3));
            F::push_un(x, e(81, 3));
            drop(x.remove_into(n / 2));
        }
        2 => while x.pop_into().is_some() {},
        _ => *x = UnsizedVec::new(),
    }
    ensure!(y.len() == n && (0..n).all(|i| F::same(&y[i], e(i, 3))), Class::Traits, "a vector changed with its clone");
    F::push_un(y, e(90, 3));
    ensure!(F::same(&y[n], e(90, 3)), Class::Traits, "a vector is broken after its clone was changed");
    if change % 2 == 0 {
        drop(v);
        drop(c);
    } else {
        drop(c);
        drop(v);
    }
    for (s, l) in rt().live.iter().enumerate() {
        ensure!(*l == 0, Class::Own, "value {s} is left {l} times");
    }
    Ok(())
}

/// Cloning while the `k`-th call of `Clone::clone` panics, or the `k`-th allocator call fails.
/// Returns whether it did.
fn check_clone_fault<F: crate::fam::Fam>(n: usize, how: u8, oom: bool, k: u64) -> Res<bool>
where
    F::T: Sized + Clone,
{
    use crate::elem::E;
    let e = |i: usize, salt| E { kind: 0, id: i as u8 + 1, salt };
    let mut v: UnsizedVec<F::T> = match how {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity(n + 3),
        _ => UnsizedVec::with_capacity_bytes_align(2, 200, 64),
    };
    for i in 0..n {
        F::push_un(&mut v, e(i, 3));
    }
    let live = rt().live;
    let blocks = talloc::live_blocks();
    if oom { talloc::set_fail(k) } else { arm(k) }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| v.clone()));
    talloc::set_fail_off();
    talloc::on();
    let fired = if oom { talloc::fail_fired() } else { rt().fired };
    arm(0);
    match r {
        Ok(c) => {
            ensure!(c.len() == n && (0..n).all(|i| F::same(&c[i], e(i, 3))), Class::Traits, "the clone is wrong");
            drop(c);
        }
        Err(p) => {
            let ours = p.is::<Injected>() || oom && p.downcast_ref::<&str>() == Some(&OOM_MSG);
            untracked(|| drop(p));
            ensure!(fired && ours, Class::Traits, "clone panicked: {}", msg());
            if rt().live != live {
                return fail(Class::Own, "values cloned before the panic were not dropped");
            }
            ensure!(talloc::live_blocks() == blocks, Class::Heap, "the clone's block leaked");
        }
    }
    ensure!(v.len() == n && (0..n).all(|i| F::same(&v[i], e(i, 3))), Class::Content, "the original changed");
    F::push_un(&mut v, e(n, 3));
    let c = v.clone();
    ensure!(c.len() == n + 1 && (0..n + 1).all(|i| F::same(&c[i], e(i, 3))), Class::Content, "the original cannot be used");
    drop(v);
    drop(c);
    for (s, l) in rt().live.iter().enumerate() {
        ensure!(*l == 0, Class::Own, "value {s} is left {l} times");
    }
    Ok(fired)
}

fn check_default<F: TF>() -> Res {
    let v: UnsizedVec<F::T> = Default::default();
    let w: UnsizedVec<F::T> = UnsizedVec::new();
    ensure!(v.len() == 0 && v.is_empty() && v.iter().next().is_none() && v.byte_len() == 0, Class::Traits, "the default vector is not empty");
    ensure!(v == w && v.capacity() == w.capacity() && v.byte_capacity() == w.byte_capacity() && v.align() == w.align(), Class::Traits,
        "the default vector differs from a new one");
    ensure!(talloc::counts().allocs == 0, Class::Traits, "the default vector allocated");
    Ok(())
}

// ---------------------------------------------------------------- cases
// T prop what ...: 0 pair (type, cfg a, cfg b, len a, a.., b..), 1 cross, 2 cross-eq,
// 3 one (type, cfg, list), 4 clone (family, n, how, change, from), 5 default (type)

fn pair_case(c: &[u8]) -> ((u8, &[u8]), (u8, &[u8])) {
    let n = c[6] as usize | (c[7] as usize) << 8;
    ((c[4], &c[8..8 + n]), (c[5], &c[8 + n..]))
}
const CLONES: [&str; 5] = ["sized8", "sized1", "sized3", "sized16a16", "sizedzst"];

static mut FIRED: bool = false;

fn run(c: &[u8]) -> Vec<Fail> {
    reset();
    let (end, r) = guarded(|| {
        let r: Res = match c[2] {
            0 => {
                let (a, b) = pair_case(c);
                for_tf!(c[3], F => check_same::<F>(a, b))
            }
            1 => {
                let (a, b) = pair_case(c);
                for_cross!(c[3], F, G => check_pair::<F, G>(a, b))
            }
            2 => {
                let (a, b) = pair_case(c);
                for_cross_eq!(c[3], F, G => check_pair_eq::<F, G>(a, b))
            }
            3 => for_tf!(c[3], F => check_one::<F>(c[4], &c[5..])),
            4 => {
                let (n, how, change, from) = (c[4] as usize, c[5], c[6], c[7]);
                match c[3] {
                    0 => check_clone::<crate::fam::S8>(n, how, change, from),
                    1 => check_clone::<crate::fam::S1>(n, how, change, from),
                    2 => check_clone::<crate::fam::S3>(n, how, change, from),
                    3 => check_clone::<crate::fam::S16>(n, how, change, from),
                    _ => check_clone::<crate::fam::SZ>(n, how, change, from),
                }
            }
            6 => {
                let (n, how, oom, k) = (c[4] as usize, c[5], c[6] != 0, c[7] as u64);
                match c[3] {
                    0 => check_clone_fault::<crate::fam::S8>(n, how, oom, k),
                    1 => check_clone_fault::<crate::fam::S1>(n, how, oom, k),
                    2 => check_clone_fault::<crate::fam::S3>(n, how, oom, k),
                    3 => check_clone_fault::<crate::fam::S16>(n, how, oom, k),
                    _ => check_clone_fault::<crate::fam::SZ>(n, how, oom, k),
                }.map(|f| unsafe { FIRED = f })
            }
            _ => for_tf!(c[3], F => check_default::<F>()),
        };
        r
    });
    let mut fails = vec![];
    match (end, r) {
        (Ended::Ok, Some(Err(f))) => fails.push(f),
        (Ended::Ok, _) => {
            if talloc::live_blocks() > 0 {
                fails.push(Fail { class: Class::Heap, what: "a block leaked".into() });
            }
        }
        _ => fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) }),
    }
    for r in [check_own(), check_heap()] {
        if let Err(f) = r {
            fails.push(f);
        }
    }
    fails
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    on!(traits { run(c).iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect() })
}
pub fn describe(c: &[u8]) -> String {
    let list = |name: &str, cfg: u8, l: &[u8]| format!("UnsizedVec<{name}> of elements {l:?} (configuration {cfg})");
    match c[2] {
        0 => {
            let (a, b) = pair_case(c);
            for_tf!(c[3], F => format!("compare {} with {}", list(F::NAME, a.0, a.1), list(F::NAME, b.0, b.1)))
        }
        1 => {
            let (a, b) = pair_case(c);
            for_cross!(c[3], F, G => format!("compare {} with {}", list(F::NAME, a.0, a.1), list(G::NAME, b.0, b.1)))
        }
        2 => {
            let (a, b) = pair_case(c);
            for_cross_eq!(c[3], F, G => format!("compare {} with {}", list(F::NAME, a.0, a.1), list(G::NAME, b.0, b.1)))
        }
        3 => for_tf!(c[3], F => format!("format and serialize {}", list(F::NAME, c[4], &c[5..]))),
        4 => format!("clone{} {} elements of {} (configuration {}), then change one of the two ({})",
            if c[7] > 0 { "_from" } else { "" }, c[4], CLONES[c[3] as usize], c[5], c[6]),
        6 => format!("clone {} elements of {} (configuration {}); {} {} fails", c[4], CLONES[c[3] as usize], c[5],
            if c[6] != 0 { "allocator call" } else { "call of Clone::clone" }, c[7]),
        _ => for_tf!(c[3], F => format!("UnsizedVec<{}>::default()", F::NAME)),
    }
}

/// Cloning under faults: for the properties about panics and allocation failure.
pub fn explore_faults(prop: u8, oom: bool, level: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    for f in 0..5u8 {
        let long: &[u8] = match level { 0 => &[], 1 => &[17, 40], _ => &[17, 33, 40, 65, 130] };
        for n in (0..=(4 + 3 * level) as u8).chain(long.iter().copied()) {
            for how in 0..3 {
                rec.st.states += 1;
                for k in 1..200 {
                    let c = [b'T', prop, 6, f, n, how, oom as u8, k];
                    note(&c);
                    unsafe { FIRED = false };
                    let x = run(&c);
                    let ok = x.is_empty();
                    rec.result(&c, &x, describe);
                    rec.sample(37, || describe(&c));
                    if !unsafe { FIRED } || !ok {
                        break;
                    }
                    rec.st.faults += 1;
                }
            }
        }
    }
}

pub const JOBS: u8 = TFS + 3 + 4 + 1;
pub fn job_name(j: u8) -> String {
    if j < TFS {
        for_tf!(j, F => F::NAME.to_string())
    } else if j < TFS + 3 {
        for_cross!(j - TFS, F, G => format!("{} with {}", F::NAME, G::NAME))
    } else if j < TFS + 7 {
        for_cross_eq!(j - TFS - 3, F, G => format!("{} with {}", F::NAME, G::NAME))
    } else {
        "clone".into()
    }
}

pub fn explore(prop: u8, job: u8, level: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let max = if level == 0 { 3 } else { 3 + level };
    let go = |rec: &mut Rec, c: &[u8]| {
        if rec.full() {
            return;
        }
        note(c);
        rec.st.transitions += 1;
        let f = run(c);
        rec.result(c, &f, describe);
        rec.sample(10007, || describe(c));
    };
    if job == TFS + 7 {
        for f in 0..5u8 {
            let long: &[u8] = match level { 0 => &[], 1 => &[8, 17, 40], _ => &[16, 17, 33, 40, 65, 130, 200] };
            for n in (0..=(2 + 2 * level) as u8).chain(long.iter().copied()) {
                for how in 0..4 {
                    rec.st.states += 1;
                    for change in 0..8 {
                        for from in 0..4 {
                            go(&mut rec, &[b'T', prop, 4, f, n, how, change, from]);
                        }
                    }
                }
            }
        }
        return;
    }
    let (what, idx, na, nb) = if job < TFS {
        let n = for_tf!(job, F => F::N);
        (0, job, n, n)
    } else if job < TFS + 3 {
        let (a, b) = for_cross!(job - TFS, F, G => (F::N, G::N));
        (1, job - TFS, a, b)
    } else {
        let (a, b) = for_cross_eq!(job - TFS - 3, F, G => (F::N, G::N));
        (2, job - TFS - 3, a, b)
    };
    let all = |n: u8, max: usize| {
        let mut out: Vec<Vec<u8>> = vec![];
        for len in 0..=max {
            lists(n, len, &mut |l| out.push(l.to_vec()));
        }
        out
    };
    let (la, lb) = (all(na, max), all(nb, max));
    let mut c = vec![];
    for a in &la {
        rec.st.states += CFGS as u64;
        for ca in 0..CFGS {
            if what == 0 {
                c.clear();
                c.extend_from_slice(&[b'T', prop, 3, idx, ca]);
                c.extend_from_slice(a);
                go(&mut rec, &c);
            }
            for b in &lb {
                for cb in 0..CFGS {
                    // at the full length the configurations are paired, not crossed
                    if a.len().max(b.len()) >= 3 && (ca + cb) % CFGS != 1 && ca != cb {
                        continue;
                    }
                    c.clear();
                    c.extend_from_slice(&[b'T', prop, what, idx, ca, cb, a.len() as u8, 0]);
                    c.extend_from_slice(a);
                    c.extend_from_slice(b);
                    go(&mut rec, &c);
                }
            }
        }
    }
    // long lists: equal, different in one place, one the beginning of the other
    let mut lens = vec![7, 8, 17, 40];
    match level {
        0 => lens.truncate(2),
        1 => lens.push(260),
        _ => lens.extend([16, 31, 32, 33, 64, 65, 100, 130, 255, 256, 257, 600]),
    }
    for n in lens {
        for pat in 0..na.min(3) {
            let a: Vec<u8> = (0..n).map(|i| (i as usize * pat as usize % na as usize) as u8).collect();
            let same: Vec<u8> = a.iter().map(|x| x % nb).collect();
            let mut bs = vec![same.clone()];
            for cut in [1, 2, n / 2, n - 1, n] {
                bs.push(same[..n - cut].to_vec());
            }
            bs.push([&same[..], &[0]].concat());
            for at in 0..n {
                if n > 40 && !(at < 2 || at > n - 3 || at % 64 < 2 || at % 256 == 255) {
                    continue;
                }
                for d in 1..nb {
                    let mut b = same.clone();
                    b[at] = (b[at] + d) % nb;
                    bs.push(b);
                }
            }
            rec.st.states += 1;
            for (ca, cb) in [(0, 0), (0, 2), (3, 4), (1, 3)] {
                if what == 0 && n <= 300 {
                    c.clear();
                    c.extend_from_slice(&[b'T', prop, 3, idx, ca]);
                    c.extend_from_slice(&a);
                    go(&mut rec, &c);
                }
                for b in &bs {
                    c.clear();
                    c.extend_from_slice(&[b'T', prop, what, idx, ca, cb, a.len() as u8, (a.len() >> 8) as u8]);
                    c.extend_from_slice(&a);
                    c.extend_from_slice(b);
                    go(&mut rec, &c);
                    if what == 0 {
                        c.clear();
                        c.extend_from_slice(&[b'T', prop, what, idx, cb, ca, b.len() as u8, (b.len() >> 8) as u8]);
                        c.extend_from_slice(b);
                        c.extend_from_slice(&a);
                        go(&mut rec, &c);
                    }
                }
            }
        }
    }
    if what == 0 {
        go(&mut rec, &[b'T', prop, 5, idx]);
    }
    rec.st.depth = rec.st.depth.max(max);
}
