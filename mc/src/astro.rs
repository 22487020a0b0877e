//! Vectors of zero-sized elements whose length is astronomic: no list of that length can be
//! written down, but everything about it is known from the length alone. Also slices of
//! such lengths as elements.

use crate::cases::*;
use crate::rt::*;
use crate::talloc::{self, untracked};
use crate::vecdrv::Stats;
use emplacable::{Emplacable, box_new_with};
use unsized_vec::UnsizedVec;

const LENS: &[usize] = &[usize::MAX, usize::MAX - 1, usize::MAX - 2, isize::MAX as usize, isize::MAX as usize + 1, 1 << 62, 1 << 32];

/// A zero-sized value with an alignment.
#[derive(Clone, Copy)]
pub struct Z<A>([A; 0]);
impl<A> PartialEq for Z<A> {
    fn eq(&self, _: &Z<A>) -> bool {
        true
    }
}
trait Zst: Copy + PartialEq + 'static {
    fn z() -> Self;
}
impl Zst for () {
    fn z() {}
}
impl<A: Copy + 'static> Zst for Z<A> {
    fn z() -> Self {
        Z([])
    }
}

fn huge<T: Zst>(n: usize) -> Vec<T> {
    // SAFETY: values without bytes, of types anyone may copy
    unsafe { Vec::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n, usize::MAX) }
}

pub const OPS: u8 = 36;
fn op_name(o: u8) -> &'static str {
    ["push", "push_with", "insert at 0", "insert in the middle", "insert at the length", "insert past the length", "insert_with at 0",
        "insert_with at the length", "pop", "pop into a box", "remove the first", "remove the middle one", "remove the last", "remove past the end",
        "get", "get_mut", "index the last", "index past the end", "try_reserve as many as fit", "try_reserve one more than fits",
        "try_reserve_exact one more than fits", "reserve as many as fit", "reserve one more than fits", "try_reserve_capacity_bytes",
        "shrink_to_fit", "shrink_to", "iterate from both ends", "iterate mutably from both ends", "iterate with nth", "extend with two", "to Vec and back",
        "swap", "shrink_capacity_bytes_to", "shrink_capacity_bytes_align_to", "reserve_exact_capacity_bytes_align",
        "coerce to slices"][o as usize]
}

/// The outcome of a call that may be refused.
fn refusable<R>(what: &str, allowed: bool, g: (Ended, Option<R>)) -> Res<Option<R>> {
    match g.0 {
        Ended::Ok => {
            ensure!(allowed, Class::Oob, "{what} was not refused");
            Ok(g.1)
        }
        _ => {
            ensure!(!allowed, Class::Panic, "{what} panicked: {}", msg());
            Ok(None)
        }
    }
}

fn state<T: Zst>(v: &UnsizedVec<T>, n: usize, after: &str) -> Res {
    ensure!(v.len() == n, Class::Content, "length is {} and not {n} after {after}", v.len());
    ensure!(v.is_empty() == (n == 0), Class::Content, "is_empty of {n} elements after {after}");
    ensure!(v.byte_len() == 0 && v.byte_capacity() == 0, Class::Layout, "byte length {}, byte capacity {} after {after}", v.byte_len(), v.byte_capacity());
    ensure!(v.capacity() >= n, Class::Layout, "capacity {} for {n} elements after {after}", v.capacity());
    ensure!(v.align() >= align_of::<T>(), Class::Layout, "alignment {} after {after}", v.align());
    ensure!(v.iter().len() == n && v.iter().size_hint() == (n, Some(n)), Class::Iter, "iterator of length {} over {n} elements after {after}", v.iter().len());
    for (i, is) in [(0, n > 0), (n / 2, n > 0), (n.wrapping_sub(1), n > 0), (n, false), (usize::MAX, false)] {
        ensure!(v.get(i).is_some() == is, Class::Oob, "get({i}) of {n} elements after {after}");
        if let Some(x) = v.get(i) {
            ensure!((x as *const T).addr() % align_of::<T>() == 0, Class::Layout, "element {i} at {x:p} after {after}");
        }
    }
    Ok(())
}

/// Does one operation, giving the new length.
fn op<T: Zst>(v: &mut UnsizedVec<T>, w: &mut UnsizedVec<T>, n: usize, nw: &mut usize, o: u8) -> Res<usize> {
    let name = op_name(o);
    let full = n == usize::MAX;
    let max = usize::MAX;
    let e = || -> Emplacable<T, _> { T::z().into() };
    Ok(match o {
        0 => refusable(name, !full, guarded(|| v.push(T::z())))?.map_or(n, |_| n + 1),
        1 => refusable(name, !full, guarded(|| v.push_with(e())))?.map_or(n, |_| n + 1),
        2 => refusable(name, !full, guarded(|| v.insert(0, T::z())))?.map_or(n, |_| n + 1),
        3 => refusable(name, !full, guarded(|| v.insert(n / 2, T::z())))?.map_or(n, |_| n + 1),
        4 => refusable(name, !full, guarded(|| v.insert(n, T::z())))?.map_or(n, |_| n + 1),
        5 => refusable(name, false, guarded(|| if !full { v.insert(n + 1, T::z()) } else { panic!() }))?.map_or(n, |_| n + 1),
        6 => refusable(name, !full, guarded(|| v.insert_with(0, e())))?.map_or(n, |_| n + 1),
        7 => refusable(name, !full, guarded(|| v.insert_with(n, e())))?.map_or(n, |_| n + 1),
        8 => {
            let some = v.pop_into().is_some();
            ensure!(some == (n > 0), Class::Content, "pop of {n} elements");
            n - some as usize
        }
        9 => {
            let b = v.pop_into().map(box_new_with);
            ensure!(b.is_some() == (n > 0), Class::Content, "pop of {n} elements");
            n - b.is_some() as usize
        }
        10..14 => {
            let i = [0, n / 2, n.wrapping_sub(1), n][o as usize - 10];
            refusable(name, i < n, guarded(|| { let _ = v.remove_into(i).get(); }))?.map_or(n, |_| n - 1)
        }
        14 | 15 => {
            for i in [0, n / 2, n.wrapping_sub(1), n, max] {
                let is = if o == 14 { v.get(i).is_some() } else { v.get_mut(i).is_some() };
                ensure!(is == (i < n), Class::Oob, "{name}({i}) of {n} elements");
            }
            n
        }
        16 => {
            refusable(name, n > 0, guarded(|| assert!(v[n.wrapping_sub(1)] == T::z())))?;
            n
        }
        17 => {
            refusable(name, false, guarded(|| assert!(v[n] == T::z())))?;
            n
        }
        18 => {
            ensure!(v.try_reserve(max - n).is_ok() && v.try_reserve_exact(max - n).is_ok(), Class::Try, "{name} of {n} elements failed");
            ensure!(v.capacity() == max, Class::Cap, "capacity {} after {name}", v.capacity());
            n
        }
        19 | 20 => {
            let k = (max - n).wrapping_add(1);
            for k in [k, max] {
                if k != 0 && n != 0 {
                    let r = if o == 19 { v.try_reserve(k) } else { v.try_reserve_exact(k) };
                    ensure!(r.is_err(), Class::Try, "{name}: {k} on top of {n} granted");
                }
            }
            n
        }
        21 => {
            refusable(name, true, guarded(|| { v.reserve(max - n); v.reserve_exact(max - n) }))?;
            n
        }
        22 => {
            if n > 0 {
                let g = guarded(|| v.reserve(max - n + 1));
                ensure!(g.0 != Ended::Ok, Class::Try, "{name} was granted");
                let g = guarded(|| v.reserve_exact_capacity_bytes(max - n + 1, 0));
                ensure!(g.0 != Ended::Ok, Class::Try, "{name} was granted");
            }
            n
        }
        23 => {
            ensure!(v.try_reserve_capacity_bytes(max - n, 0).is_ok() && v.try_reserve_exact_capacity_bytes_align(0, 0, 1).is_ok(), Class::Try, "{name} of {n} elements failed");
            n
        }
        24 => { v.shrink_to_fit(); n }
        25 => { v.shrink_to(n / 2); v.shrink_to(max); n }
        32 => { v.shrink_capacity_bytes_to(0, 0); v.shrink_capacity_bytes_to(n, 100); n }
        33 => { v.shrink_capacity_bytes_align_to(0, 0, 1); n }
        34 => { v.reserve_exact_capacity_bytes_align(max - n, 0, 1); n }
        26 | 27 => {
            let mut left = n;
            macro_rules! both { ($it:expr) => {{
                let mut it = $it;
                for k in 0..6 {
                    let x = if k % 3 == 1 { it.next_back() } else { it.next() };
                    ensure!(x.is_some() == (left > 0), Class::Iter, "step {k} over {n} elements");
                    left = left.saturating_sub(1);
                    ensure!(it.len() == left && it.size_hint() == (left, Some(left)), Class::Iter, "{} left of {n} after step {k}", it.len());
                }
            }} }
            if o == 26 { both!(v.iter()) } else { both!(v.iter_mut()) }
            n
        }
        28 => {
            let mut it = v.iter();
            let mut left = n;
            for (k, back) in [(3usize, false), (2, true), (0, false), (0, true)] {
                let x = if back { it.nth_back(k) } else { it.nth(k) };
                ensure!(x.is_some() == (left > k), Class::Iter, "nth {k} of {left}");
                left = left.saturating_sub(k + 1);
                ensure!(it.len() == left, Class::Iter, "{} left of {n} after nth", it.len());
            }
            n
        }
        29 => {
            // as many of the two as there is room for
            let g = guarded(|| v.extend([e(), e()]));
            ensure!((g.0 == Ended::Ok) == (max - n >= 2), Class::Panic, "extending {n} elements by 2: {:?}", g.0);
            if g.0 == Ended::Ok {
                n + 2
            } else {
                let l = v.len();
                ensure!(l >= n, Class::Content, "{l} elements after extending {n}");
                l
            }
        }
        30 => {
            let x: Vec<T> = std::mem::take(v).into();
            ensure!(x.len() == n, Class::Conv, "{} elements in the Vec", x.len());
            *v = x.into();
            n
        }
        31 => {
            std::mem::swap(v, w);
            std::mem::replace(nw, n)
        }
        _ => {
            // a million wide pointers or more cannot be had
            let x = UnsizedVec::from(huge::<[T; 2]>(n.min(1 << 61) | 1 << 60));
            let g = guarded(|| x.unsize::<[T]>().len());
            ensure!(g.0 != Ended::Ok, Class::Try, "coerced to {:?} slices", g.1);
            n
        }
    })
}

impl<T: Zst> Zst for [T; 2] {
    fn z() -> Self {
        [T::z(); 2]
    }
}

fn vecs<T: Zst>(len: usize, seq: &[u8]) -> Res {
    let mut v = UnsizedVec::from(huge::<T>(len));
    let mut w = UnsizedVec::new();
    let (mut n, mut nw) = (len, 0);
    state(&v, n, "the conversion")?;
    for &o in seq {
        n = op(&mut v, &mut w, n, &mut nw, o)?;
        state(&v, n, op_name(o))?;
        state(&w, nw, op_name(o))?;
    }
    drop(v);
    drop(w);
    Ok(())
}

/// Slices of lengths `LENS` and some small ones, as elements.
fn slices<T: Zst>(seq: &[u8]) -> Res {
    let mut v: UnsizedVec<[T]> = UnsizedVec::new();
    let mut want: Vec<usize> = untracked(Vec::new);
    let lens = [0, 1, usize::MAX, 1 << 62, isize::MAX as usize];
    for &o in seq {
        let n = lens[(o % 5) as usize];
        let bx = || -> Box<[T]> { huge::<T>(n).into_boxed_slice() };
        let l = want.len();
        match o / 5 {
            0 => v.push(*bx()),
            1 => v.push_with(bx().into()),
            2 => v.push_with(huge::<T>(n).into()),
            3 => v.insert(l / 2, *bx()),
            4 => v.insert_with(l / 2, bx().into()),
            5 => {
                let x = v.pop_into().map(box_new_with);
                ensure!(x.as_ref().map(|x| x.len()) == want.last().copied(), Class::Content, "popped {:?}, expected {:?}", x.map(|x| x.len()), want.last());
                untracked(|| want.pop());
            }
            6 => if l > 0 {
                let x = box_new_with(v.remove_into(l / 2));
                ensure!(x.len() == want[l / 2], Class::Content, "removed {}, expected {}", x.len(), want[l / 2]);
                untracked(|| want.remove(l / 2));
            },
            _ => v.shrink_to_fit(),
        }
        untracked(|| match o / 5 {
            0..3 => want.push(n),
            3 | 4 => want.insert(l / 2, n),
            _ => {}
        });
        ensure!(v.len() == want.len(), Class::Content, "{} elements, expected {}", v.len(), want.len());
        ensure!(v.byte_len() == 0 && v.byte_capacity() == 0, Class::Layout, "byte length {}, byte capacity {}", v.byte_len(), v.byte_capacity());
        for (i, &k) in want.iter().enumerate() {
            ensure!(v[i].len() == k && v.get(i).map(|x| x.len()) == Some(k), Class::Content, "element {i} has length {}, expected {k}", v[i].len());
            ensure!(v[i].as_ptr().addr() % align_of::<T>() == 0, Class::Layout, "element {i} at {:p}", v[i].as_ptr());
        }
        ensure!(v.iter().map(|x| x.len()).eq(want.iter().copied()), Class::Iter, "iteration differs from the list");
        ensure!(v.iter_mut().rev().map(|x| x.len()).eq(want.iter().rev().copied()), Class::Iter, "mutable iteration differs from the list");
    }
    drop(v);
    untracked(|| drop(want));
    Ok(())
}

// ---------------------------------------------------------------- cases
// Z prop what type len ops..

fn run(c: &[u8]) -> Vec<Fail> {
    reset();
    let (end, r) = guarded(|| -> Res {
        let n = LENS[c[4] as usize];
        match (c[2], c[3]) {
            (0, 0) => vecs::<()>(n, &c[5..]),
            (0, 1) => vecs::<Z<u64>>(n, &c[5..]),
            (0, _) => vecs::<Z<crate::elem::Al64>>(n, &c[5..]),
            (_, 0) => slices::<()>(&c[5..]),
            (_, _) => slices::<Z<crate::elem::Al64>>(&c[5..]),
        }
    });
    let mut fails = vec![];
    match (end, r) {
        (Ended::Ok, Some(Err(f))) => fails.push(f),
        (Ended::Ok, _) => {
            if talloc::live_blocks() > 0 {
                fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
            }
        }
        _ => fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) }),
    }
    if let Err(f) = check_heap() {
        fails.push(f);
    }
    fails
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    on!(astro { run(c).iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect() })
}
pub fn describe(c: &[u8]) -> String {
    let t = ["()", "a zero-sized type aligned to 8", "a zero-sized type aligned to 64"][c[3] as usize];
    match c[2] {
        0 => format!("UnsizedVec of {} times {t}: {}", LENS[c[4] as usize], c[5..].iter().map(|&o| op_name(o)).collect::<Vec<_>>().join("; ")),
        _ => format!("UnsizedVec of slices of {t}: {}", c[5..].iter().map(|&o| format!("{} (length {})",
            ["push a box's slice", "push a box", "push a Vec", "insert a box's slice", "insert a box", "pop", "remove", "shrink_to_fit"][o as usize / 5],
            ["0", "1", "usize::MAX", "2^62", "isize::MAX"][o as usize % 5])).collect::<Vec<_>>().join("; ")),
    }
}

/// Which of the failures are a property's.
fn wanted(p: u8, k: Class) -> bool {
    k == Class::Panic || match p {
        1 => matches!(k, Class::Content | Class::Iter),
        5 => k == Class::Cap || k == Class::Try,
        9 => k == Class::Try,
        10 => k == Class::Iter,
        12 => k == Class::Oob,
        14 => k == Class::Conv || k == Class::Content,
        _ => matches!(k, Class::Layout | Class::Heap),
    }
}

pub fn explore(prop: u8, level: usize, shard: (usize, usize), st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns: wanted };
    let mut buf = vec![];
    let mut number = 0;
    let mut go = |rec: &mut Rec, what: u8, t: u8, n: u8, seq: &[u8]| {
        number += 1;
        if number % shard.1 != shard.0 || rec.full() {
            return;
        }
        buf.clear();
        buf.extend_from_slice(&[b'Z', prop, what, t, n]);
        buf.extend_from_slice(seq);
        note(&buf);
        rec.st.states += 1;
        rec.st.transitions += seq.len() as u64;
        rec.st.depth = rec.st.depth.max(seq.len());
        let f = run(&buf);
        rec.result(&buf, &f, describe);
        rec.sample(4001, || describe(&buf));
    };
    for len in 1..=2 + level {
        for t in 0..3 {
            for n in 0..LENS.len() as u8 {
                if len == 4 && (t > 0 || n > 3) {
                    continue;
                }
                lists(OPS, len, &mut |l| go(&mut rec, 0, t, n, l));
            }
        }
    }
    for len in 1..=2 + level {
        for t in 0..2 {
            lists(36, len, &mut |l| {
                // the length plays no part in the last three
                let l: Vec<u8> = l.to_vec();
                if l.iter().all(|&o| o < 26 || o % 5 == 0) && (len < 4 || l.iter().all(|&o| !matches!(o % 5, 1 | 3))) {
                    go(&mut rec, 1, t, 0, &l)
                }
            });
        }
    }
}
