//! Conversions: from and to `Vec`, coercion of the elements, the macros, slice iterators,
//! extending with size hints that cannot be met.

use crate::cases::*;
use crate::elem::*;
use crate::fam::*;
use crate::rt::*;
use crate::talloc::{self, untracked};
use crate::vecdrv::Stats;
use emplacable::{Emplacable, unsize};
use unsized_vec::{UnsizedIter, UnsizedVec, unsize_vec, unsized_vec};

fn el(i: usize) -> E {
    E { kind: 0, id: i as u8 + 1, salt: 5 }
}
fn all_gone() -> Res {
    for (s, l) in rt().live.iter().enumerate() {
        ensure!(*l == 0, Class::Own, "value {s} is left {l} times");
    }
    Ok(())
}

/// Vec -> UnsizedVec -> (operations) -> Vec, for sized elements.
fn there_and_back<const N: usize, A: 'static>(n: usize, spare: usize, how: u8) -> Res
where
    D<N, A>: Sized,
{
    let mut x: Vec<D<N, A>> = Vec::with_capacity(n + spare);
    for i in 0..n {
        x.push(D::new(el(i).id, el(i).salt));
    }
    let (p, c) = (x.as_ptr(), x.capacity());
    let before = talloc::counts();
    let mut v = UnsizedVec::from(x);
    ensure!(talloc::calls_since(before) == 0, Class::Conv, "From<Vec> called the allocator");
    ensure!(v.len() == n && v.capacity() == c, Class::Conv, "From<Vec> of length {n}, capacity {c} has {}, {}", v.len(), v.capacity());
    ensure!(v.byte_len() == n * size_of::<D<N, A>>(), Class::Conv, "From<Vec> has byte length {}", v.byte_len());
    for i in 0..n {
        ensure!(std::ptr::eq(&v[i], unsafe { p.add(i) }) && v[i].is(el(i).id, el(i).salt), Class::Conv, "From<Vec> moved or changed element {i}");
    }
    let mut want: Vec<u8> = untracked(|| (0..n).map(|i| el(i).id).collect());
    let push = |v: &mut UnsizedVec<D<N, A>>, want: &mut Vec<u8>| {
        let id = 100 + want.len() as u8;
        v.push(D::new(id, 5));
        untracked(|| want.push(id));
    };
    match how {
        0 => {}
        1 => while v.len() < v.capacity().min(n + spare) {
            push(&mut v, &mut want);
        },
        2 => {
            if let Some(e) = v.pop_into() {
                drop(e.get());
                untracked(|| want.pop());
            }
        }
        3 => {
            push(&mut v, &mut want);
            push(&mut v, &mut want);
            if n > 0 {
                drop(v.remove_into(0));
                untracked(|| want.remove(0));
            }
        }
        4 => {
            v.shrink_to_fit();
            push(&mut v, &mut want);
        }
        _ => {
            v.insert(n / 2, D::new(99, 5));
            untracked(|| want.insert(n / 2, 99));
            v.reserve(50);
        }
    }
    let (c, len) = (v.capacity(), v.len());
    let p = v.get(0).map(|r| r as *const D<N, A>);
    let before = talloc::counts();
    let y: Vec<D<N, A>> = v.into();
    ensure!(talloc::calls_since(before) == 0, Class::Conv, "into Vec called the allocator");
    ensure!(y.len() == len && len == want.len() && y.capacity() == c, Class::Conv, "into Vec of {len} (capacity {c}) has {}, {}", y.len(), y.capacity());
    ensure!(p.is_none_or(|p| p == y.as_ptr()), Class::Conv, "into Vec moved the elements");
    for i in 0..len {
        let id = if N == 0 { 0 } else { want[i] };
        ensure!(y[i].is(id, 5), Class::Conv, "into Vec changed element {i}");
    }
    untracked(|| drop(want));
    drop(y);
    all_gone()
}

/// Coercion of a vector that was arrived at by `how`.
fn coerce<F: Fam>(kind: u8, n: usize, spare: usize, after: u8) -> Res {
    let e = |i: usize| E { kind, id: i as u8 + 1, salt: 5 };
    let Some(mut v) = F::from_vec(e(0), n, spare) else { return Ok(()) };
    let check = |v: &UnsizedVec<F::T>, ids: &[(u8, u8)], what: &str| -> Res {
        ensure!(v.len() == ids.len(), Class::Conv, "{what}: {} elements instead of {}", v.len(), ids.len());
        ensure!(v.iter().len() == ids.len() && v.iter().count() == ids.len(), Class::Conv, "{what}: iteration yields {}", v.iter().count());
        for (i, (r, &(kind, id))) in v.iter().zip(ids).enumerate() {
            let x = E { kind, id, salt: 5 };
            ensure!(F::same(r, x) && F::same(&v[i], x), Class::Conv, "{what}: element {i} is not {x:?}");
        }
        Ok(())
    };
    let mut ids: Vec<(u8, u8)> = untracked(|| (0..n).map(|i| (kind, i as u8 + 1)).collect());
    check(&v, &ids, "after the coercion")?;
    ensure!(v.capacity() >= n, Class::Conv, "capacity {} below length {n}", v.capacity());
    let nk = F::KINDS.len() as u8;
    match after {
        0 => {}
        // another kind than the one coerced from joins
        1 | 2 => {
            for k in 0..nk {
                let x = E { kind: k, id: 100 + k, salt: 5 };
                if after == 1 {
                    F::push_un(&mut v, x);
                    untracked(|| ids.push((k, 100 + k)));
                } else {
                    F::ins_un(&mut v, n / 2, x);
                    untracked(|| ids.insert(n / 2, (k, 100 + k)));
                }
            }
        }
        3 => {
            v.shrink_to_fit();
            F::push_un(&mut v, E { kind: nk - 1, id: 100, salt: 5 });
            untracked(|| ids.push((nk - 1, 100)));
        }
        4 => {
            while let Some(x) = v.pop_into() {
                let b = emplacable::box_new_with(x);
                let (k, id) = untracked(|| ids.pop()).unwrap();
                ensure!(F::same(&b, E { kind: k, id, salt: 5 }), Class::Conv, "popped value is not {id}");
            }
            F::push_un(&mut v, e(70));
            untracked(|| ids.push((kind, 71)));
        }
        _ => {
            while v.len() > 0 {
                let b = emplacable::box_new_with(v.remove_into(0));
                let (k, id) = untracked(|| ids.remove(0));
                ensure!(F::same(&b, E { kind: k, id, salt: 5 }), Class::Conv, "removed value is not {id}");
            }
        }
    }
    check(&v, &ids, "after the operations that followed")?;
    untracked(|| drop(ids));
    drop(v);
    all_gone()
}

/// From and into slice iterators.
fn slice_iter(n: usize, front: usize, back: usize) -> Res {
    type T = D<8, u64>;
    let x: Vec<T> = (0..n).map(|i| D::new(el(i).id, el(i).salt)).collect();
    let mut it = x.iter();
    for _ in 0..front {
        it.next();
    }
    for _ in 0..back {
        it.next_back();
    }
    let want: Vec<u8> = untracked(|| it.clone().map(|d| d.id()).collect());
    let mut u = UnsizedIter::from(it);
    ensure!(u.len() == want.len(), Class::Conv, "UnsizedIter::from has length {} instead of {}", u.len(), want.len());
    let got: Vec<u8> = untracked(|| UnsizedIter::from(x[front.min(n)..n - back.min(n - front.min(n))].iter()).map(|d| d.id()).collect());
    ensure!(got == want, Class::Conv, "UnsizedIter::from(slice iterator) yields {got:?} instead of {want:?}");
    let mid = want.len() / 2;
    for (k, &w) in want.iter().enumerate().take(mid) {
        ensure!(u.next().is_some_and(|d| d.id() == w), Class::Conv, "element {k} differs");
    }
    let s: std::slice::Iter<'_, T> = u.into();
    ensure!(s.len() == want.len() - mid && s.zip(&want[mid..]).all(|(d, w)| d.id() == *w), Class::Conv, "slice iterator differs");
    // and of a vector's own iterator
    let v = UnsizedVec::from(x);
    let mut u = v.iter();
    for _ in 0..front {
        u.next();
    }
    for _ in 0..back {
        u.next_back();
    }
    let s: std::slice::Iter<'_, T> = u.into();
    ensure!(s.len() == want.len() && s.clone().zip(&want).all(|(d, w)| d.id() == *w), Class::Conv, "slice iterator of a vector differs");
    if let Some(d) = s.clone().next() {
        ensure!(std::ptr::eq(d, &v[front]), Class::Conv, "slice iterator of a vector points elsewhere");
    }
    untracked(|| drop((want, got)));
    drop(v);
    all_gone()
}

/// Extending from an iterator that claims to be longer than memory: everything is appended,
/// or the reservation panics and nothing has happened.
struct Liar(usize, usize);
impl Iterator for Liar {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        self.0 = self.0.checked_sub(1)?;
        Some(50 + self.0 as u8)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.1, None)
    }
}
const LIES: [usize; 7] = [usize::MAX, usize::MAX / 2, isize::MAX as usize + 1, usize::MAX / 16, 1 << 40, 1 << 50, usize::MAX - 1];
fn liar<F: Fam>(n: usize, items: usize, lie: u8) -> Res {
    let mut v: UnsizedVec<F::T> = UnsizedVec::new();
    for i in 0..n {
        F::push_un(&mut v, el(i));
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        v.extend(Liar(items, LIES[lie as usize]).map(|id| custom::<F::T>(untracked(|| F::make(E { kind: 0, id, salt: 5 })))));
    }));
    talloc::on();
    let len = if r.is_ok() { n + items } else { n };
    untracked(|| drop(r));
    ensure!(v.len() == len, Class::Conv, "{} elements instead of {len}", v.len());
    for i in 0..len {
        let want = if i < n { el(i) } else { E { kind: 0, id: 50 + (items - 1 - (i - n)) as u8, salt: 5 } };
        ensure!(F::same(&v[i], want), Class::Conv, "element {i} is not {want:?}");
    }
    F::push_un(&mut v, el(90));
    ensure!(v.len() == len + 1 && F::same(&v[len], el(90)), Class::Conv, "the vector does not work any more");
    drop(v);
    all_gone()
}

// ---------------------------------------------------------------- macros

type P = D<8, u64>;
type Q = D<3, u8>;
type R = D<16, Al16>;
macro_rules! perms {
    // all arity-3 sequences over three types
    ($m:ident, $out:ident, $n:expr) => {{
        let mut k = 0;
        perms!(@1 $m $out k $n; P, Q, R);
    }};
    (@1 $m:ident $out:ident $k:ident $n:expr; $($a:ident),*) => { $( perms!(@2 $m $out $k $n; $a; P, Q, R); )* };
    (@2 $m:ident $out:ident $k:ident $n:expr; $a:ident; $($b:ident),*) => { $( perms!(@3 $m $out $k $n; $a $b; P, Q, R); )* };
    (@3 $m:ident $out:ident $k:ident $n:expr; $a:ident $b:ident; $($c:ident),*) => { $(
        if $k == $n { $out = Some($m!($a, $b, $c)); }
        $k += 1;
        let _ = $k;
    )* };
}
fn tr_is(v: &UnsizedVec<dyn Tr>, shapes: &[(usize, usize)]) -> Res {
    ensure!(v.len() == shapes.len(), Class::Conv, "{} elements instead of {}", v.len(), shapes.len());
    for (i, s) in shapes.iter().enumerate() {
        ensure!(v[i].shape() == *s, Class::Conv, "element {i} has shape {:?} instead of {s:?}", v[i].shape());
        ensure!(v[i].is_(i as u8 + 1, 0), Class::Conv, "element {i} is another one");
    }
    Ok(())
}
fn macros(case: u8, n: u8) -> Res {
    fn shape<X: Default3>() -> (usize, usize) {
        (size_of::<X>(), align_of::<X>())
    }
    macro_rules! shapes { ($a:ident, $b:ident, $c:ident) => { [shape::<$a>(), shape::<$b>(), shape::<$c>()] } }
    let mut sh = None;
    perms!(shapes, sh, n as usize);
    let sh = sh.unwrap();
    match case {
        0 => {
            let mut order = 0u8;
            let mut next = || {
                order += 1;
                order
            };
            macro_rules! mk { ($a:ident, $b:ident, $c:ident) => { unsize_vec![<$a>::new(next(), 0), <$b>::new(next(), 0), <$c>::new(next(), 0)] } }
            let mut v: Option<UnsizedVec<dyn Tr>> = None;
            perms!(mk, v, n as usize);
            tr_is(&v.unwrap(), &sh)?;
        }
        1 => {
            macro_rules! mk { ($a:ident, $b:ident, $c:ident) => { unsized_vec![
                unsize!($a::new(1, 0), ($a) -> dyn Tr), Emplacable::from($b::new(2, 0)).unsize::<dyn Tr>(), unsize!($c::new(3, 0), ($c) -> dyn Tr),] } }
            let mut v: Option<UnsizedVec<dyn Tr>> = None;
            perms!(mk, v, n as usize);
            tr_is(&v.unwrap(), &sh)?;
        }
        2 => {
            macro_rules! mk { ($a:ident, $b:ident, $c:ident) => {{
                let mut w: UnsizedVec<dyn Tr> = unsize_vec![$a::new(1, 0), $c::new(3, 0), $b::new(2, 0)];
                let v: UnsizedVec<dyn Tr> = unsized_vec![
                    Emplacable::from($a::new(1, 0)).unsize::<dyn Tr>(), w.remove_into(2), w.remove_into(1)];
                drop(w);
                v
            }} }
            let mut v: Option<UnsizedVec<dyn Tr>> = None;
            perms!(mk, v, n as usize);
            tr_is(&v.unwrap(), &sh)?;
        }
        3 => {
            let v: UnsizedVec<dyn Tr> = unsize_vec![];
            let w: UnsizedVec<[u8]> = unsized_vec![];
            ensure!(v.is_empty() && w.is_empty(), Class::Conv, "an empty macro makes a non-empty vector");
            let one: UnsizedVec<dyn Tr> = unsize_vec![P::new(1, 0),];
            tr_is(&one, &sh_one())?;
            let v = unsized_vec![P::new(1, 0), P::new(2, 0)];
            ensure!(v.len() == 2 && v[0].is(1, 0) && v[1].is(2, 0), Class::Conv, "sized macro");
            let s: UnsizedVec<str> = unsized_vec![Emplacable::<str, _>::from("ab"), Emplacable::<str, _>::from(""), Emplacable::<str, _>::from("c")];
            ensure!(s.len() == 3 && &s[0] == "ab" && &s[1] == "" && &s[2] == "c", Class::Conv, "string macro");
            let l: UnsizedVec<[u16]> = unsize_vec![[1, 2, 3], [], [4], [5, 6]];
            ensure!(l.len() == 4 && l[0] == [1, 2, 3] && l[1] == [] && l[2] == [4] && l[3] == [5, 6], Class::Conv, "slice macro");
        }
        _ => unreachable!(),
    }
    all_gone()
}
fn sh_one() -> [(usize, usize); 1] {
    [(8, 8)]
}
trait Default3 {}
impl Default3 for P {}
impl Default3 for Q {}
impl Default3 for R {}

// ---------------------------------------------------------------- cases
// X prop what ..: 0 there and back (type, n, spare, how), 1 coerce (family, kind, n, spare, after),
// 2 slice iterators (n, front, back), 3 liar (family, n, items, lie), 4 macros (case, n)

fn run(c: &[u8]) -> Vec<Fail> {
    reset();
    let (end, r) = guarded(|| -> Res {
        let u = |i: usize| c[i] as usize;
        match c[2] {
            0 => match c[3] {
                0 => there_and_back::<8, u64>(u(4), u(5), c[6]),
                1 => there_and_back::<1, u8>(u(4), u(5), c[6]),
                2 => there_and_back::<3, u8>(u(4), u(5), c[6]),
                3 => there_and_back::<16, Al16>(u(4), u(5), c[6]),
                4 => there_and_back::<0, u8>(u(4), u(5), c[6]),
                _ => there_and_back::<64, Al64>(u(4), u(5), c[6]),
            },
            1 => for_family!(FAMILIES[u(3)], F => coerce::<F>(c[4], u(5), u(6), c[7])),
            2 => slice_iter(u(3), u(4), u(5)),
            3 => for_family!(FAMILIES[u(3)], F => liar::<F>(u(4), u(5), c[6])),
            _ => macros(c[3], c[4]),
        }
    });
    let mut fails = vec![];
    match (end, r) {
        (Ended::Ok, Some(Err(f))) => fails.push(f),
        (Ended::Ok, _) => {
            if talloc::live_blocks() > 0 {
                fails.push(Fail { class: Class::Heap, what: format!("leaked block {:?}", talloc::first_live()) });
            }
        }
        _ => fails.push(Fail { class: Class::Panic, what: format!("panicked: {}", msg()) }),
    }
    for r in [check_own(), check_heap()] {
        if let Err(f) = r {
            fails.push(f);
        }
    }
    fails
}
pub fn rerun(c: &[u8]) -> Vec<String> {
    on!(conv { run(c).iter().map(|f| format!("{:?}: {}", f.class, f.what)).collect() })
}
pub fn describe(c: &[u8]) -> String {
    match c[2] {
        0 => format!("Vec of {} elements of type {} with spare capacity {} into an UnsizedVec, operation {}, back into a Vec",
            c[4], ["sized8", "sized1", "sized3", "sized16a16", "sizedzst", "sized64a64"][c[3] as usize], c[5], c[6]),
        1 => format!("Vec of {} values of kind {} of {}, spare capacity {}, coerced; then operations {}",
            c[5], c[4], FAMILIES[c[3] as usize], c[6], c[7]),
        2 => format!("slice iterator over {} elements, {} taken from the front, {} from the back", c[3], c[4], c[5]),
        3 => format!("UnsizedVec of {} with {} elements extended by {} from an iterator with lower size hint {}",
            FAMILIES[c[3] as usize], c[4], c[5], LIES[c[6] as usize]),
        _ => format!("vector macros, case {}, element types {}", c[3], c[4]),
    }
}

/// Job 0: everything that does not depend on a family. Otherwise family `job - 1`.
pub fn explore(prop: u8, job: usize, level: usize, st: &mut Stats) {
    let mut rec = Rec { st, prop, concerns };
    let mut go = |c: &[u8]| {
        if rec.full() {
            return;
        }
        note(c);
        rec.st.states += 1;
        rec.st.transitions += 1;
        let f = run(c);
        rec.result(c, &f, describe);
        rec.sample(401, || describe(c));
    };
    let big = [6, 12, 40][level] as u8;
    let long: &[u8] = match level { 0 => &[], _ => &[17, 40, 100] };
    if job == 0 {
        for t in 0..6 {
            for &n in long {
                for spare in [0, 1, 50] {
                    for how in 0..6 {
                        go(&[b'X', prop, 0, t, n, spare, how]);
                    }
                }
            }
        }
        for t in 0..6 {
            for n in 0..=big {
                for spare in 0..=big.min(20) {
                    for how in 0..6 {
                        go(&[b'X', prop, 0, t, n, spare, how]);
                    }
                }
            }
        }
        for n in 0..=big {
            for f in 0..=n + 1 {
                for b in 0..=n + 1 - f.min(n + 1) {
                    go(&[b'X', prop, 2, n, f, b]);
                }
            }
        }
        for case in 0..3 {
            for n in 0..27 {
                go(&[b'X', prop, 4, case, n]);
            }
        }
        go(&[b'X', prop, 4, 3, 0]);
        return;
    }
    let fam = (job - 1) as u8;
    let nk = for_family!(FAMILIES[fam as usize], F => F::KINDS.len()) as u8;
    for kind in 0..nk {
        for n in 0..=big {
            for spare in 0..=big.min(12) {
                for after in 0..6 {
                    go(&[b'X', prop, 1, fam, kind, n, spare, after]);
                }
            }
        }
    }
    for kind in 0..nk {
        for &n in long {
            for spare in [0, 1, 50] {
                for after in 0..6 {
                    if FAMILIES[fam as usize] != "dynhuge" || n < 100 {
                        go(&[b'X', prop, 1, fam, kind, n, spare, after]);
                    }
                }
            }
        }
    }
    for n in 0..4 {
        for items in 0..4 {
            for lie in 0..LIES.len() as u8 {
                go(&[b'X', prop, 3, fam, n, items, lie]);
            }
        }
    }
}
