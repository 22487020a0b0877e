//! Every sequence of iterator calls up to a bound, and every consuming method at its end,
//! against a double-ended range of the list's positions.

use crate::cases::*;
use crate::elem::E;
use crate::fam::*;
use crate::rt::*;
use crate::vecdrv::Stats;
use std::panic::{AssertUnwindSafe, catch_unwind};
use unsized_vec::{UnsizedIter, UnsizedIterMut, UnsizedVec};

pub const STEPS: u8 = 17;
/// With those whose argument depends on how many elements remain, or is large: for long vectors.
pub const LONG_STEPS: u8 = 28;
/// The steps longer sequences are made of.
pub const CORE: u8 = 9;
pub const TERMS: u8 = 24;

struct Built<F: Fam> {
    v: UnsizedVec<F::T>,
    p: Vec<*const F::T>,
    es: Vec<E>,
}

fn build<F: Fam>(cfg: u8, kinds: &[u8]) -> Result<Built<F>, Fail> {
    reset();
    let es: Vec<E> = kinds.iter().enumerate().map(|(i, &k)| E { kind: k, id: (i as u8).wrapping_add(1), salt: 0 }).collect();
    let (e, v) = guarded(|| {
        let mut v = match cfg {
            0 => UnsizedVec::new(),
            1 => UnsizedVec::with_capacity_bytes_align(2, 16, 64),
            _ => UnsizedVec::with_capacity_bytes_align(8, 2048, 1),
        };
        if cfg == 2 {
            // one more element, removed again
            F::push_un(&mut v, E { kind: (F::KINDS.len() - 1) as u8, id: 200, salt: 0 });
        }
        for &e in &es {
            F::push_un(&mut v, e);
        }
        if cfg == 2 {
            drop(v.remove_into(0));
        }
        v
    });
    let Some(v) = v else {
        return Err(Fail { class: Class::Panic, what: format!("building the vector panicked ({e:?}): {}", msg()) });
    };
    let mut p = vec![];
    for i in 0..es.len() {
        match v.get(i) {
            Some(r) if F::same(r, es[i]) => p.push(r as *const F::T),
            _ => return Err(Fail { class: Class::Content, what: format!("element {i} is not what was pushed") }),
        }
    }
    Ok(Built { v, p, es })
}

pub fn step_name(s: u8) -> &'static str {
    ["next", "next_back", "nth(0)", "nth(1)", "nth(2)", "nth(MAX)", "nth_back(0)", "nth_back(1)", "nth_back(MAX)",
     "any(2nd)", "all(not 1st)", "find(2nd)", "find_map(3rd)", "position(2nd)", "rfind(2nd)", "rposition(2nd)", "try_fold(2)",
     "nth(8)", "nth(half)", "nth(all but 1)", "nth(all)", "nth_back(8)", "nth_back(half)", "nth_back(all but 1)", "nth_back(all)",
     "find(9th)", "rfind(9th)", "position(last)"][s as usize]
}
pub fn term_name(t: u8) -> &'static str {
    ["(dropped)", "count", "last", "fold", "rfold", "for_each", "rev.collect", "rev.nth(1).next", "step_by(2)", "step_by(3)",
     "skip(1)", "skip(2).rev", "take(2)", "zip", "rev.step_by(2)", "enumerate.rev", "chain", "max_by_key", "min_by_key", "skip(MAX)",
     "peekable", "collect", "reduce", "len after exhaustion"][t as usize]
}

/// Buffers that are used again for every case.
#[derive(Default)]
struct Scratch {
    /// Positions of the elements yielded by the steps.
    out: Vec<usize>,
    got: Vec<usize>,
    exp: Vec<usize>,
}

const NOTHING: usize = usize::MAX;

macro_rules! driver {
    ($name:ident, $it:ident $(, $muta:ident)?) => {
        /// Runs one sequence. Checks what each call yields and the length after it.
        fn $name<F: Fam>(mut it: $it<'_, F::T>, p: &[*const F::T], seq: &[u8], term: u8, o: &mut Scratch) -> Res {
            let Scratch { out, got, exp } = o;
            let mut lo = 0usize;
            let mut hi = p.len();
            let is = |r: &F::T, i: usize| i < p.len() && {
                let a: *const F::T = r;
                std::ptr::addr_eq(a, p[i]) && std::ptr::metadata(a) == std::ptr::metadata(p[i])
            };
            macro_rules! want {
                ($got:expr, $exp:expr, $what:expr) => {{
                    let exp: Option<usize> = $exp;
                    match ($got, exp) {
                        (None, None) => {}
                        (Some(r), Some(i)) => {
                            ensure!(is(&*r, i), Class::Iter, "{} does not yield element {i}", $what);
                            out.push(i);
                        }
                        (None, Some(i)) => return fail(Class::Iter, format!("{} yields nothing instead of element {i}", $what)),
                        (Some(_), None) => return fail(Class::Iter, format!("{} yields something although exhausted", $what)),
                    }
                }};
            }
            for (k, &s) in seq.iter().enumerate() {
                let say = || format!("call {k}, {}", step_name(s));
                let left = hi - lo;
                match s {
                    0 => { let e = (left > 0).then_some(lo); lo += (left > 0) as usize; want!(it.next(), e, say()) }
                    1 => { hi -= (left > 0) as usize; let e = (left > 0).then_some(hi); want!(it.next_back(), e, say()) }
                    2..=5 | 17..=20 => {
                        let n = match s { 5 => usize::MAX, 17 => 8, 18 => left / 2, 19 => left.saturating_sub(1), 20 => left, _ => s as usize - 2 };
                        let e = (n < left).then(|| lo + n);
                        lo = e.map_or(hi, |e| e + 1);
                        want!(it.nth(n), e, say())
                    }
                    6..=8 | 21..=24 => {
                        let n = match s { 8 => usize::MAX, 21 => 8, 22 => left / 2, 23 => left.saturating_sub(1), 24 => left, _ => s as usize - 6 };
                        let e = (n < left).then(|| hi - 1 - n);
                        hi = e.unwrap_or(lo);
                        want!(it.nth_back(n), e, say())
                    }
                    9 | 10 | 11 | 12 | 13 | 16 | 25 | 27 => {
                        // stop at the element number `stop`
                        let stop = match s { 10 => 0, 12 => 2, 25 => 8, 27 => left.saturating_sub(1), _ => 1 };
                        let mut n = 0;
                        let mut bad = false;
                        let base = lo;
                        let mut see = |r: &F::T| {
                            bad |= !is(r, base + n);
                            n += 1;
                            n == stop + 1
                        };
                        let hit = stop < left;
                        lo = if hit { lo + stop + 1 } else { hi };
                        match s {
                            9 => { let r = it.any(|x| see(&*x)); ensure!(r == hit, Class::Iter, "{}: {r}", say()) }
                            10 => { let r = it.all(|x| !see(&*x)); ensure!(r != hit, Class::Iter, "{}: {r}", say()) }
                            11 | 25 => { let r = it.find(|x| see(&**x)); want!(r, hit.then(|| base + stop), say()) }
                            12 => { let r = it.find_map(|x| if see(&*x) { Some(x) } else { None }); want!(r, hit.then(|| base + stop), say()) }
                            13 | 27 => { let r = it.position(|x| see(&*x)); ensure!(r == hit.then_some(stop), Class::Iter, "{}: {r:?}", say()) }
                            _ => { let r = it.try_fold(0, |a, x| if see(&*x) { Err(a) } else { Ok(a + 1) });
                                ensure!(r == if hit { Err(stop) } else { Ok(left) }, Class::Iter, "{}: {r:?}", say()) }
                        }
                        ensure!(!bad && n == if hit { stop + 1 } else { left }, Class::Iter, "{} does not show the elements in order", say());
                    }
                    _ => {
                        let stop = if s == 26 { 8 } else { 1 };
                        let mut n = 0;
                        let mut bad = false;
                        let end = hi;
                        let mut see = |r: &F::T| {
                            bad |= n >= left || !is(r, end - 1 - n);
                            n += 1;
                            n == stop + 1
                        };
                        let hit = stop < left;
                        hi = if hit { hi - stop - 1 } else { lo };
                        match s {
                            14 | 26 => { let r = it.rfind(|x| see(&**x)); want!(r, hit.then_some(hi), say()) }
                            _ => { let r = it.rposition(|x| see(&*x)); ensure!(r == hit.then(|| left - 1 - stop), Class::Iter, "{}: {r:?}", say()) }
                        }
                        ensure!(!bad && n == if hit { stop + 1 } else { left }, Class::Iter, "{} does not show the elements in order", say());
                    }
                }
                let left = hi - lo;
                ensure!(it.len() == left && it.size_hint() == (left, Some(left)), Class::Iter,
                    "{} leaves len {} and size_hint {:?}, {left} remain", say(), it.len(), it.size_hint());
            }
            // what remains
            let left = hi - lo;
            got.clear();
            exp.clear();
            let mut n = 0usize;
            let mut take = |r: &F::T, i: usize| got.push(if is(r, i) { i } else { NOTHING });
            #[allow(unused_mut)]
            let mut x = |i: usize| exp.push(i);
            match term {
                0 => drop(it),
                1 => { let c = it.count(); ensure!(c == left, Class::Iter, "count is {c}, {left} remain") }
                2 => { let l = it.last(); want!(l, left.checked_sub(1).map(|k| lo + k), "last") }
                3 => { it.fold(lo, |i, r| { take(&*r, i); i + 1 }); (lo..hi).for_each(x) }
                4 => { it.rfold(hi, |i, r| { take(&*r, i.wrapping_sub(1)); i.wrapping_sub(1) }); (lo..hi).rev().for_each(x) }
                5 => { let mut i = lo; it.for_each(|r| { take(&*r, i); i += 1; }); (lo..hi).for_each(x) }
                6 => { let mut i = hi; it.rev().for_each(|r| { i = i.wrapping_sub(1); take(&*r, i); }); (lo..hi).rev().for_each(x) }
                7 => {
                    let mut r = it.rev();
                    let a = r.nth(1);
                    want!(a, (left > 1).then(|| hi - 2), "rev.nth(1)");
                    let b = r.next();
                    want!(b, (left > 2).then(|| hi - 3), "rev.next");
                    ensure!(r.len() == left.saturating_sub(3), Class::Iter, "rev has len {}", r.len());
                }
                8 | 9 => {
                    let k = term as usize - 6;
                    let mut i = lo;
                    it.step_by(k).for_each(|r| { take(&*r, i); i += k; });
                    (lo..hi).step_by(k).for_each(x)
                }
                10 => { let mut i = lo + 1; it.skip(1).for_each(|r| { take(&*r, i); i += 1; }); (lo..hi).skip(1).for_each(x) }
                11 => { let mut i = hi; it.skip(2).rev().for_each(|r| { i = i.wrapping_sub(1); take(&*r, i); }); (lo..hi).skip(2).rev().for_each(x) }
                12 => { let mut i = lo; it.take(2).for_each(|r| { take(&*r, i); i += 1; }); (lo..hi).take(2).for_each(x) }
                13 => { it.zip(lo..).for_each(|(r, i)| take(&*r, i)); (lo..hi).for_each(x) }
                14 => { let mut i = hi; it.rev().step_by(2).for_each(|r| { take(&*r, i.wrapping_sub(1)); i = i.wrapping_sub(2); }); (lo..hi).rev().step_by(2).for_each(x) }
                15 => { it.enumerate().rev().for_each(|(k, r)| take(&*r, lo + k)); (lo..hi).rev().for_each(x) }
                16 => { let mut i = lo; it.chain(std::iter::empty()).for_each(|r| { take(&*r, i); i += 1; }); (lo..hi).for_each(x) }
                17 => { let mut i = 0; let r = it.max_by_key(|_| { i += 1; i }); want!(r, left.checked_sub(1).map(|k| lo + k), "max_by_key") }
                18 => { let mut i = 0; let r = it.min_by_key(|_| { i += 1; i }); want!(r, (left > 0).then_some(lo), "min_by_key") }
                19 => { it.skip(usize::MAX).for_each(|r| take(&*r, lo)); }
                20 => {
                    let mut q = it.peekable();
                    let b = q.peek().is_some();
                    ensure!(b == (left > 0), Class::Iter, "peek: {b}");
                    let mut i = lo;
                    q.for_each(|r| { take(&*r, i); i += 1; });
                    (lo..hi).for_each(x)
                }
                21 => { let all: Vec<_> = it.collect(); let mut i = lo; for r in all { take(&*r, i); i += 1; } (lo..hi).for_each(x) }
                22 => { let mut i = lo; let r = it.reduce(|_, b| { i += 1; take(&*b, i); b }); want!(r, left.checked_sub(1).map(|k| lo + k), "reduce"); (lo..hi).skip(1).for_each(x) }
                _ => {
                    while it.next_back().is_some() { n += 1; if n > p.len() { break; } }
                    ensure!(n == left, Class::Iter, "{n} elements from the back, {left} remain");
                    for _ in 0..2 {
                        ensure!(it.next().is_none() && it.next_back().is_none() && it.nth(0).is_none() && it.nth_back(0).is_none()
                            && it.nth(1).is_none() && it.len() == 0 && it.size_hint() == (0, Some(0)), Class::Iter, "an exhausted iterator came back to life");
                    }
                }
            }
            ensure!(got == exp, Class::Iter, "{} yields {got:?} instead of {exp:?}", term_name(term));
            Ok(())
        }
    };
}
driver!(drive_ref, UnsizedIter);
driver!(drive_mut, UnsizedIterMut, mut);

fn one<F: Fam>(b: &mut Built<F>, how: u8, seq: &[u8], term: u8, o: &mut Scratch) -> Option<Fail> {
    o.out.clear();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = &b.p;
        match how {
            0 => drive_ref::<F>(b.v.iter(), p, seq, term, o),
            1 => drive_ref::<F>((&b.v).into_iter(), p, seq, term, o),
            2 => drive_mut::<F>(b.v.iter_mut(), p, seq, term, o),
            _ => drive_mut::<F>((&mut b.v).into_iter(), p, seq, term, o),
        }
    }));
    let f = match r {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(_) => Some(Fail { class: Class::Iter, what: format!("panicked: {}", msg()) }),
    };
    if f.is_none() && how >= 2 && seq.len() <= 2 {
        // writes through what was yielded land there
        let mut salt = vec![0u8; b.es.len()];
        {
            let mut it = b.v.iter_mut();
            let all: Vec<&mut F::T> = it.by_ref().collect();
            for (i, r) in all.into_iter().enumerate() {
                if o.out.contains(&i) {
                    salt[i] = 1;
                    F::rewrite(r, E { salt: 1, ..b.es[i] });
                }
            }
        }
        for i in 0..b.es.len() {
            if !F::same(&b.v[i], E { salt: salt[i], ..b.es[i] }) {
                return Some(Fail { class: Class::Iter, what: format!("element {i} after writing through the iterator") });
            }
            if salt[i] == 1 {
                F::rewrite(&mut b.v[i], b.es[i]);
            }
        }
    }
    f
}

fn encode(buf: &mut Vec<u8>, prop: u8, fam: u8, cfg: u8, how: u8, kinds: &[u8], term: u8, seq: &[u8]) {
    buf.clear();
    buf.extend_from_slice(&[b'I', prop, fam, cfg, how, term, kinds.len() as u8, (kinds.len() >> 8) as u8]);
    buf.extend_from_slice(kinds);
    buf.extend_from_slice(seq);
}
pub fn describe(c: &[u8]) -> String {
    let n = c[6] as usize | (c[7] as usize) << 8;
    format!("UnsizedVec of {}, kinds {:?}, starting configuration {}: {}: {}; then {}",
        FAMILIES[c[2] as usize], &c[8..8 + n], c[3], ["iter", "&vec", "iter_mut", "&mut vec"][c[4] as usize],
        c[8 + n..].iter().map(|&s| step_name(s)).collect::<Vec<_>>().join(", "), term_name(c[5]))
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    on!(iters { rerun_here(c) })
}
fn rerun_here(c: &[u8]) -> Vec<String> {
    let n = c[6] as usize | (c[7] as usize) << 8;
    for_mine!(FAMILIES[c[2] as usize], F => {
        match build::<F>(c[3], &c[8..8 + n]) {
            Err(f) => vec![f.what],
            Ok(mut b) => one::<F>(&mut b, c[4], &c[8 + n..], c[5], &mut Scratch::default()).map(|f| f.what).into_iter().collect(),
        }
    })
}

/// Long vectors: fewer sequences of calls, whose arguments reach across the vector.
pub fn explore_long<F: Fam>(prop: u8, fam: u8, level: usize, shard: (usize, usize), st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut buf = vec![];
    let mut o = Scratch::default();
    let nk = F::KINDS.len();
    let mut lens = vec![8, 9, 17, 40];
    match level {
        0 => lens.truncate(2),
        1 => lens.push(130),
        _ => lens.extend([16, 32, 33, 64, 65, 100, 257, 300]),
    }
    if FAMILIES[fam as usize] == "dynhuge" {
        lens.retain(|&n| n <= 40);
    }
    let mut number = 0;
    for n in lens {
        for pat in 0..=nk.min(3) {
            // all kinds in turn, from one or another; the last one only
            let kinds: Vec<u8> = (0..n).map(|i| if pat == 0 { nk - 1 } else { (i * pat + pat) % nk } as u8).collect();
            for cfg in [0, 2] {
                number += 1;
                if number % shard.1 != shard.0 {
                    continue;
                }
                let mut b = match build::<F>(cfg, &kinds) {
                    Ok(b) => b,
                    Err(f) => {
                        encode(&mut buf, prop, fam, cfg, 0, &kinds, 0, &[]);
                        rec.result(&buf, &[f], describe);
                        continue;
                    }
                };
                let depth = if n > 100 { 1 } else { 1 + level.min(1) };
                for how in [0, 2] {
                    for len in 0..=depth {
                        lists(LONG_STEPS, len, &mut |seq| {
                            rec.st.states += 1;
                            for term in 0..TERMS {
                                if rec.full() {
                                    return;
                                }
                                rec.st.transitions += 1 + seq.len() as u64;
                                encode(&mut buf, prop, fam, cfg, how, &kinds, term, seq);
                                note(&buf);
                                let f = one::<F>(&mut b, how, seq, term, &mut o);
                                let bad = f.is_some();
                                rec.result(&buf, f.as_slice(), describe);
                                if !bad {
                                    rec.sample(50021, || describe(&buf));
                                }
                            }
                        });
                        rec.st.depth = rec.st.depth.max(len + 1);
                    }
                }
                std::mem::forget(b);
                if rec.full() {
                    return;
                }
            }
        }
    }
}

/// Contents explored: every list of kinds up to `all_len`, and a few longer ones.
fn contents<F: Fam>(all_len: usize) -> Vec<Vec<u8>> {
    let nk = F::KINDS.len() as u8;
    let mut v = vec![];
    for len in 0..=all_len {
        lists(nk, len, &mut |l| v.push(l.to_vec()));
    }
    for len in all_len + 1..=6 {
        for start in 0..nk.min(3) {
            v.push((0..len).map(|i| (start as usize + i * (1 + start as usize)) as u8 % nk).collect());
        }
    }
    v
}

pub fn explore<F: Fam>(prop: u8, fam: u8, level: usize, shard: (usize, usize), st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut buf = vec![];
    let mut out = Scratch::default();
    let cfgs: &[u8] = if F::CLS == Cls::Unaligned { &[0, 1, 2] } else { &[0, 2] };
    let nk = F::KINDS.len();
    let all_len = if nk == 1 { 5 } else if nk <= 3 || level == 2 { 3 } else { 2 };
    let list = contents::<F>(all_len);
    for (ci, kinds) in list.iter().enumerate() {
        if ci % shard.1 != shard.0 {
            continue;
        }
        // deep call sequences on the longer contents and on every 7th of the others
        let deep = kinds.len() > all_len || ci % 7 == 3;
        let d = match level { 0 => 3, 1 => if deep { 5 } else { 4 }, _ => if deep { 6 } else { 5 } };
        for &cfg in cfgs {
            let mut b = match build::<F>(cfg, kinds) {
                Ok(b) => b,
                Err(f) => {
                    encode(&mut buf, prop, fam, cfg, 0, kinds, 0, &[]);
                    rec.result(&buf, &[f], describe);
                    continue;
                }
            };
            for how in 0..4u8 {
                let dd = if how % 2 == 1 { 1 } else { d };
                for len in 0..=dd {
                    let alphabet = if len > 2 { CORE } else { STEPS };
                    let terms = if len >= 4 { 1 } else { TERMS };
                    lists(alphabet, len, &mut |seq| {
                        rec.st.states += 1;
                        for term in 0..terms {
                            if rec.full() {
                                return;
                            }
                            rec.st.transitions += 1 + seq.len() as u64;
                            // the whole sequence was checked as the last calls' prefix is, too
                            let term = if terms == 1 { 23 } else { term };
                            encode(&mut buf, prop, fam, cfg, how, kinds, term, seq);
                            note(&buf);
                            let f = one::<F>(&mut b, how, seq, term, &mut out);
                            let bad = f.is_some();
                            rec.result(&buf, f.as_slice(), describe);
                            if !bad {
                                rec.sample(50021, || describe(&buf));
                            }
                        }
                    });
                    rec.st.depth = rec.st.depth.max(len + 1);
                }
            }
            std::mem::forget(b);
            if rec.full() {
                return;
            }
        }
    }
}
