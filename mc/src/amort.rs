//! Every cycle of adding (and removing) operations up to a length, repeated thousands of
//! times from every starting configuration. Between the n-th and the 2n-th operation the
//! vector may ask the allocator only a constant number of times.

use crate::cases::*;
use crate::elem::E;
use crate::fam::*;
use crate::rt::*;
use crate::talloc::{self, counting};
use crate::vecdrv::Stats;
use std::panic::{AssertUnwindSafe, catch_unwind};
use emplacable::{Emplacable, EmplacableFn};
use unsized_vec::UnsizedVec;

pub const METHODS: u8 = 13;
/// Methods that take elements out.
const POP: u8 = 11;
const REM0: u8 = 12;
fn name(m: u8) -> &'static str {
    ["push", "push_unsize", "push_with(box)", "push_with(custom)", "insert(len)", "insert(len/2)", "insert_unsize(len)",
     "insert_with(len)", "insert_with(0)", "extend(1, hint 1)", "extend(3, hint 0)", "pop", "remove(0)"][m as usize]
}
/// Allowed between the n-th and the 2n-th operation: two blocks, each growing geometrically
/// by a factor of at least 5/4, and some alignments.
const PER_DOUBLING: u64 = 10;

struct Hint<I>(I, usize);
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}
struct PushC<'a, T: ?Sized>(&'a mut UnsizedVec<T>);
impl<T: ?Sized> Use<T> for PushC<'_, T> {
    type Out = ();
    fn go<F: EmplacableFn<T>>(self, e: Emplacable<T, F>) {
        self.0.push_with(e)
    }
}

fn start<F: Fam>(cfg: u8, m: &mut Vec<(u8, u8)>) -> UnsizedVec<F::T> {
    match cfg {
        0 => UnsizedVec::new(),
        1 => UnsizedVec::with_capacity_bytes_align(1, 1, 1),
        2 => UnsizedVec::with_capacity_bytes_align(8, 64, 64),
        _ => {
            let mut v = UnsizedVec::new();
            for i in 0..3u8 {
                let e = E { kind: i % F::KINDS.len() as u8, id: 250 + i, salt: 0 };
                F::push_un(&mut v, e);
                m.push((e.kind, e.id));
            }
            v.shrink_to_fit();
            v
        }
    }
}

/// Runs the cycle `n` operations long.
fn run<F: Fam>(cfg: u8, cycle: &[(u8, u8)], n: usize) -> Vec<Fail> {
    reset();
    let mut fails = vec![];
    let mut m: Vec<(u8, u8)> = Vec::with_capacity(n * 3 + 8);
    let mut v = start::<F>(cfg, &mut m);
    unsafe { talloc::GRABS = 0 };
    let mut next_check = 64;
    let mut last = 0;
    let mut id = 0u8;
    let r = catch_unwind(AssertUnwindSafe(|| {
        for op in 0..n {
            if op == next_check {
                let g = unsafe { talloc::GRABS };
                if op > 64 && g - last > PER_DOUBLING {
                    fails.push(Fail { class: Class::Amort, what: format!("{} allocator calls between operations {} and {op}", g - last, op / 2) });
                    return;
                }
                last = g;
                next_check *= 2;
            }
            let (how, kind) = cycle[op % cycle.len()];
            let len = m.len();
            id = id.wrapping_add(1);
            let e = E { kind, id, salt: 0 };
            match how {
                POP => {
                    counting(|| drop(v.pop_into()));
                    m.pop();
                    continue;
                }
                REM0 => {
                    if len > 0 {
                        counting(|| drop(v.remove_into(0)));
                        m.remove(0);
                    }
                    continue;
                }
                0 | 4 | 5 => {
                    let at = if how == 5 { len / 2 } else { len };
                    let b = F::make(e);
                    if how == 0 { counting(|| v.push(*b)) } else { counting(|| v.insert(at, *b)) }
                    m.insert(at, (kind, id));
                }
                1 | 6 => {
                    // whatever the family needs to make the value is made uncounted
                    counting(|| if how == 1 { F::push_un(&mut v, e) } else { F::ins_un(&mut v, len, e) });
                    m.push((kind, id));
                }
                2 => {
                    let b = F::make(e);
                    counting(|| PushC(&mut v).go(b.into()));
                    m.push((kind, id));
                }
                3 => {
                    let c = custom::<F::T>(F::make(e));
                    counting(|| v.push_with(c));
                    m.push((kind, id));
                }
                7 | 8 => {
                    let c = custom::<F::T>(F::make(e));
                    let at = if how == 7 { len } else { 0 };
                    counting(|| v.insert_with(at, c));
                    m.insert(at, (kind, id));
                }
                9 => {
                    let c = custom::<F::T>(F::make(e));
                    counting(|| v.extend(Hint(std::iter::once(c), 1)));
                    m.push((kind, id));
                }
                _ => {
                    let c = [(); 3].map(|_| custom::<F::T>(F::make(e)));
                    counting(|| v.extend(Hint(c.into_iter(), 0)));
                    for _ in 0..3 {
                        m.push((kind, id));
                    }
                }
            }
        }
    }));
    if r.is_err() {
        fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) });
        std::mem::forget(v);
        return fails;
    }
    if fails.is_empty() {
        if v.len() != m.len() {
            fails.push(Fail { class: Class::Content, what: format!("length {} instead of {}", v.len(), m.len()) });
        } else {
            let every = if m.len() > 512 { 37 } else { 1 };
            for (i, (r, &(kind, id))) in v.iter().zip(&m).enumerate() {
                if i % every == 0 && !F::same(r, E { kind, id, salt: 0 }) {
                    fails.push(Fail { class: Class::Content, what: format!("element {i} of {} is wrong in the end", m.len()) });
                    break;
                }
            }
        }
    }
    if fails.is_empty() {
        drop(v);
        if let Some((w, s)) = rt().own_err {
            fails.push(Fail { class: Class::Own, what: format!("{w} (value {s})") });
        }
    } else {
        std::mem::forget(v);
    }
    fails
}

fn encode(buf: &mut Vec<u8>, prop: u8, fam: u8, cfg: u8, n: usize, cycle: &[(u8, u8)]) {
    buf.clear();
    buf.extend_from_slice(&[b'A', prop, fam, cfg, (n / 64) as u8]);
    for c in cycle {
        buf.extend_from_slice(&[c.0, c.1]);
    }
}
fn decode(c: &[u8]) -> (usize, Vec<(u8, u8)>) {
    (c[4] as usize * 64 + 1, c[5..].chunks_exact(2).map(|x| (x[0], x[1])).collect())
}
/// Emplacables collected in a standard vector, one small `extend` at a time.
const VEC: u8 = 0xff;
const VEC_FAMS: [&str; 6] = ["sized8", "sized1", "sized3", "sized16a16", "sizedzst", "plain"];
const VEC_HOWS: [&str; 6] = ["extend(1, hint 1)", "extend(1, hint 0)", "extend(3, hint 3)", "extend(3, hint 0)", "extend(0, hint 0)", "pop"];
fn run_vec<F: Fam>(cycle: &[(u8, u8)], n: usize) -> Vec<Fail>
where
    F::T: Sized,
{
    reset();
    let mut fails = vec![];
    let mut v: Vec<F::T> = Vec::new();
    let mut m: Vec<u8> = Vec::with_capacity(3 * n);
    unsafe { talloc::GRABS = 0 };
    let (mut next_check, mut last, mut id) = (64, 0, 0u8);
    let r = catch_unwind(AssertUnwindSafe(|| {
        for op in 0..n {
            if op == next_check {
                let g = unsafe { talloc::GRABS };
                if op > 64 && g - last > PER_DOUBLING {
                    fails.push(Fail { class: Class::Amort, what: format!("{} allocator calls between operations {} and {op}", g - last, op / 2) });
                    return;
                }
                last = g;
                next_check *= 2;
            }
            let mut make = || {
                id = id.wrapping_add(1);
                m.push(id);
                custom::<F::T>(F::make(E { kind: 0, id, salt: 0 }))
            };
            match cycle[op % cycle.len()].0 {
                h @ 0..2 => {
                    let c = make();
                    counting(|| v.extend(Hint(std::iter::once(c), 1 - h as usize)));
                }
                h @ 2..4 => {
                    let c = [(); 3].map(|_| make());
                    counting(|| v.extend(Hint(c.into_iter(), if h == 2 { 3 } else { 0 })));
                }
                4 => {
                    let none = [(); 0].map(|_| make());
                    counting(|| v.extend(Hint(none.into_iter(), 0)));
                }
                _ => {
                    v.pop();
                    m.pop();
                }
            }
        }
    }));
    if r.is_err() {
        fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) });
        std::mem::forget(v);
        return fails;
    }
    if fails.is_empty() && !(v.len() == m.len() && v.iter().zip(&m).all(|(x, &id)| F::same(x, E { kind: 0, id, salt: 0 }))) {
        fails.push(Fail { class: Class::Content, what: "the vector does not hold what it was extended with".into() });
    }
    fails
}
fn vec_case(c: &[u8]) -> Vec<Fail> {
    let (n, cy) = decode(c);
    match c[3] {
        0 => run_vec::<S8>(&cy, n),
        1 => run_vec::<S1>(&cy, n),
        2 => run_vec::<S3>(&cy, n),
        3 => run_vec::<S16>(&cy, n),
        4 => run_vec::<SZ>(&cy, n),
        _ => run_vec::<SP>(&cy, n),
    }
}
pub fn explore_vec(prop: u8, level: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut buf = vec![];
    for len in 1..=2 + level {
        for f in 0..VEC_FAMS.len() as u8 {
            lists(VEC_HOWS.len() as u8, len, &mut |l| {
                if rec.full() {
                    return;
                }
                let n = if len < 3 { 2048 } else { 512 };
                let cycle: Vec<(u8, u8)> = l.iter().map(|&i| (i, 0)).collect();
                encode(&mut buf, prop, VEC, f, n, &cycle);
                note(&buf);
                rec.st.states += 1;
                rec.st.transitions += n as u64;
                let x = vec_case(&buf);
                rec.result(&buf, &x, describe);
                rec.sample(101, || describe(&buf));
                rec.st.depth = rec.st.depth.max(n);
            });
        }
    }
}
/// Large vectors: few operations on 16 KiB elements and very many on tiny ones.
const BIG: u8 = 0xfe;
const BIG_TYPES: [&str; 6] = ["[u64; 2048]", "[u64] of 2048", "dyn trait objects of 16 KiB", "u8", "[u8] of one", "dyn trait objects of one byte"];
const BIG_HOWS: [&str; 13] = ["push", "push_unsize", "push_with(box)", "push_with(custom)", "insert(len)", "insert_unsize(len)", "insert_with(len)",
    "extend(1, hint 1)", "extend(1, hint 0)", "extend(3, hint 0)", "push, push, pop", "push, push_with(custom), pop_into",
    "Vec::extend(1, hint 1)"];
trait Big {
    type T: ?Sized;
    type V: 'static;
    fn val(i: usize) -> Self::V;
    fn un(v: &mut UnsizedVec<Self::T>, at: Option<usize>, i: usize);
    fn bx(i: usize) -> Box<Self::T>;
    fn is(x: &Self::T, i: usize) -> bool;
    fn vec_extend(_n: usize, _grown: &mut dyn FnMut(usize) -> bool) {}
}
trait Word {
    fn make(i: usize) -> Self;
    fn is(&self, i: usize) -> bool;
}
impl Word for [u64; 2048] {
    fn make(i: usize) -> Self {
        [i as u64; 2048]
    }
    fn is(&self, i: usize) -> bool {
        self[0] == i as u64 && self[2047] == i as u64
    }
}
impl Word for u8 {
    fn make(i: usize) -> Self {
        (i % 251) as u8
    }
    fn is(&self, i: usize) -> bool {
        *self == (i % 251) as u8
    }
}
struct BigS<W>(Ph<W>);
impl<W: Word + 'static> Big for BigS<W> {
    type T = W;
    type V = W;
    fn val(i: usize) -> W {
        W::make(i)
    }
    fn un(v: &mut UnsizedVec<W>, at: Option<usize>, i: usize) {
        // a sized vector has no coercion to make
        match at {
            None => v.push(W::make(i)),
            Some(at) => v.insert(at, W::make(i)),
        }
    }
    fn bx(i: usize) -> Box<W> {
        Box::new(W::make(i))
    }
    fn is(x: &W, i: usize) -> bool {
        x.is(i)
    }
    fn vec_extend(n: usize, grown: &mut dyn FnMut(usize) -> bool) {
        let mut v: Vec<W> = vec![];
        for op in 0..n {
            if !grown(op) {
                return;
            }
            let c = custom::<W>(Self::bx(op));
            counting(|| v.extend(Hint(std::iter::once(c), 1)));
        }
    }
}
macro_rules! big {
    ($n:ident, $t:ty, $w:ty, $is:expr) => {
        struct $n;
        impl Big for $n {
            type T = $t;
            type V = $w;
            fn val(i: usize) -> $w {
                <$w>::make(i)
            }
            fn un(v: &mut UnsizedVec<$t>, at: Option<usize>, i: usize) {
                match at {
                    None => v.push_unsize(Self::val(i)),
                    Some(at) => v.insert_unsize(at, Self::val(i)),
                }
            }
            fn bx(i: usize) -> Box<$t> {
                Box::new(Self::val(i))
            }
            fn is(x: &$t, i: usize) -> bool {
                let is: fn(&$t, usize) -> bool = $is;
                is(x, i)
            }
        }
    };
}
impl Word for [u8; 1] {
    fn make(i: usize) -> Self {
        [u8::make(i)]
    }
    fn is(&self, i: usize) -> bool {
        self[0].is(i)
    }
}
big!(BigL, [u64], [u64; 2048], |x, i| x.len() == 2048 && x[0] == i as u64 && x[2047] == i as u64);
big!(BigD, dyn Word2, [u64; 2048], |x, i| x.is2(i));
big!(TinyL, [u8], [u8; 1], |x, i| x.len() == 1 && x[0].is(i));
big!(TinyD, dyn Word2, u8, |x, i| x.is2(i));
trait Word2 {
    fn is2(&self, i: usize) -> bool;
}
impl<W: Word> Word2 for W {
    fn is2(&self, i: usize) -> bool {
        self.is(i)
    }
}
fn run_big<B: Big>(how: u8, n: usize) -> Vec<Fail> {
    reset();
    let mut fails = vec![];
    let mut v: UnsizedVec<B::T> = UnsizedVec::new();
    unsafe { talloc::GRABS = 0 };
    let (mut next_check, mut last) = (64, 0);
    let mut grown = |op: usize| {
        if op == next_check {
            let g = unsafe { talloc::GRABS };
            if op > 64 && g - last > PER_DOUBLING {
                fails.push(Fail { class: Class::Amort, what: format!("{} allocator calls between operations {} and {op}", g - last, op / 2) });
                return false;
            }
            last = g;
            next_check *= 2;
        }
        true
    };
    let r = catch_unwind(AssertUnwindSafe(|| {
        if how == 12 {
            B::vec_extend(n, &mut grown);
            return 0;
        }
        let mut i = 0;
        for op in 0..n {
            if !grown(op) {
                break;
            }
            let mut bx = || {
                i += 1;
                B::bx(i - 1)
            };
            match how {
                0 => { let b = bx(); counting(|| v.push(*b)) }
                1 => { counting(|| B::un(&mut v, None, i)); i += 1 }
                2 => { let b = bx(); counting(|| PushC(&mut v).go(b.into())) }
                3 => { let c = custom::<B::T>(bx()); counting(|| v.push_with(c)) }
                4 => { let b = bx(); counting(|| v.insert(op, *b)) }
                5 => { counting(|| B::un(&mut v, Some(op), i)); i += 1 }
                6 => { let c = custom::<B::T>(bx()); counting(|| v.insert_with(op, c)) }
                7 | 8 => { let c = custom::<B::T>(bx()); counting(|| v.extend(Hint(std::iter::once(c), 8 - how as usize))) }
                9 => { let c = [(); 3].map(|_| custom::<B::T>(bx())); counting(|| v.extend(Hint(c.into_iter(), 0))) }
                _ => match op % 3 {
                    0 => { let b = bx(); counting(|| v.push(*b)) }
                    1 if how == 10 => { let b = bx(); counting(|| v.push(*b)) }
                    1 => { let c = custom::<B::T>(bx()); counting(|| v.push_with(c)) }
                    _ => { counting(|| drop(v.pop_into())); i -= 1 }
                },
            }
        }
        i
    }));
    match r {
        Err(_) => {
            fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) });
            std::mem::forget(v);
        }
        Ok(i) => {
            if fails.is_empty() && !(v.len() == i && v.iter().enumerate().all(|(i, x)| B::is(x, i))) {
                fails.push(Fail { class: Class::Content, what: "the vector does not hold what was put into it".into() });
            }
        }
    }
    fails
}
fn big_case(c: &[u8]) -> Vec<Fail> {
    let n = 1usize << c[5];
    match c[3] {
        0 => run_big::<BigS<[u64; 2048]>>(c[4], n),
        1 => run_big::<BigL>(c[4], n),
        2 => run_big::<BigD>(c[4], n),
        3 => run_big::<BigS<u8>>(c[4], n),
        4 => run_big::<TinyL>(c[4], n),
        _ => run_big::<TinyD>(c[4], n),
    }
}
pub fn explore_big(prop: u8, level: usize, half: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut buf = vec![];
    for how in 0..BIG_HOWS.len() as u8 {
        for t in (0..BIG_TYPES.len() as u8).filter(|&t| t / 3 == half as u8) {
            if how == 12 && t % 3 != 0 || rec.full() {
                continue;
            }
            // in all, 64 MiB (thorough 512) of values, or 2^18 (thorough 2^21) of them
            let log = [[8, 12, 15], [12, 18, 21]][half][level];
            buf.clear();
            buf.extend_from_slice(&[b'A', prop, BIG, t, how, log]);
            note(&buf);
            rec.st.states += 1;
            rec.st.transitions += 1 << log;
            rec.st.depth = rec.st.depth.max(1 << log);
            let f = big_case(&buf);
            rec.result(&buf, &f, describe);
            rec.sample(17, || describe(&buf));
        }
    }
}
pub fn describe(c: &[u8]) -> String {
    if c[2] == BIG {
        return format!("vector of {}: {} times {}", BIG_TYPES[c[3] as usize], 1u64 << c[5], BIG_HOWS[c[4] as usize]);
    }
    if c[2] == VEC {
        let (n, cy) = decode(c);
        return format!("Vec of {}: {} operations cycling through {}", VEC_FAMS[c[3] as usize], n,
            cy.iter().map(|&(m, _)| VEC_HOWS[m as usize]).collect::<Vec<_>>().join(", "));
    }
    let (n, cy) = decode(c);
    format!("UnsizedVec of {}, starting configuration {}: {} operations cycling through {}", FAMILIES[c[2] as usize], c[3], n,
        cy.iter().map(|&(m, k)| format!("{} kind {k}", name(m))).collect::<Vec<_>>().join(", "))
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    on!(amort { rerun_here(c) })
}
fn rerun_here(c: &[u8]) -> Vec<String> {
    if c[2] == BIG {
        return big_case(c).iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect();
    }
    let (n, cy) = decode(c);
    if c[2] == VEC {
        return vec_case(c).iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect();
    }
    let f: Vec<Fail> = for_mine!(FAMILIES[c[2] as usize], F => run::<F>(c[3], &cy, n));
    f.iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect()
}

pub fn explore<F: Fam>(prop: u8, fam: u8, level: usize, shard: (usize, usize), st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut buf = vec![];
    let nk = F::KINDS.len() as u8;
    let mut alphabet: Vec<(u8, u8)> = vec![];
    for m in 0..POP {
        for k in 0..nk {
            alphabet.push((m, k));
        }
    }
    alphabet.push((POP, 0));
    alphabet.push((REM0, 0));
    // (length, letters, operations)
    let small: Vec<(u8, u8)> = alphabet.iter().copied()
        .filter(|&(m, k)| matches!(m, 0 | 3 | 7 | POP | REM0) && (k < 3 || k == nk - 1)).collect();
    let core: Vec<(u8, u8)> = alphabet.iter().copied().filter(|&(m, _)| matches!(m, 0 | 2 | 3 | 5 | 7 | POP | REM0)).collect();
    let plans: Vec<(usize, &[(u8, u8)], usize)> = match level {
        0 => vec![(1, &alphabet, 512)],
        1 => vec![(1, &alphabet, 4096), (2, &core, 512), (3, &small, 256)],
        _ => vec![(1, &alphabet, 8192), (2, &alphabet, 1024), (3, &core, 512), (4, &small, 512)],
    };
    let mut k = 0usize;
    for (len, letters, n) in plans {
        lists(letters.len() as u8, len, &mut |l| {
            k += 1;
            if k % shard.1 != shard.0 || rec.full() {
                return;
            }
            let cycle: Vec<(u8, u8)> = l.iter().map(|&i| letters[i as usize]).collect();
            for cfg in 0..4u8 {
                if len == 3 && level < 2 && cfg % 2 == 0 {
                    continue;
                }
                encode(&mut buf, prop, fam, cfg, n, &cycle);
                note(&buf);
                rec.st.states += 1;
                rec.st.transitions += n as u64;
                let f = run::<F>(cfg, &cycle, n + 1);
                let ok = f.is_empty();
                rec.result(&buf, &f, describe);
                if ok {
                    rec.sample(1009, || describe(&buf));
                }
            }
            rec.st.depth = rec.st.depth.max(n);
        });
    }
}
