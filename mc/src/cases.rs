//! Bookkeeping shared by the drivers whose cases are flat (no search graph).

use crate::rt::*;
use crate::vecdrv::Stats;

pub struct Rec<'a> {
    pub st: &'a mut Stats,
    pub prop: u8,
    pub concerns: fn(u8, Class) -> bool,
}

impl Rec<'_> {
    /// Whether enough failures were found to stop.
    pub fn full(&self) -> bool {
        self.st.fails.len() >= 8
    }
    pub fn sample(&mut self, every: u64, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 6 && self.st.execs % every == every / 2 {
            let s = f();
            self.st.samples.push(s);
        }
    }
    pub fn result(&mut self, case: &[u8], fails: &[Fail], describe: impl FnOnce(&[u8]) -> String) {
        self.st.execs += 1;
        if fails.is_empty() {
            return;
        }
        match fails.iter().find(|f| (self.concerns)(self.prop, f.class)) {
            Some(f) => {
                if self.st.fails.len() < 20 {
                    self.st.fails.push((format!("{:?}: {}", f.class, f.what), case.to_vec()));
                }
            }
            None => {
                self.st.other += 1;
                if self.st.others.len() < 8 {
                    let f = &fails[0];
                    self.st.others.push(format!("{:?}: {}: {}", f.class, f.what, describe(case)));
                }
            }
        }
    }
}

/// Which properties a broken promise belongs to, for the flat drivers.
pub fn concerns(p: u8, k: Class) -> bool {
    if k == Class::Panic {
        return true;
    }
    let damage = matches!(k, Class::Content | Class::Own | Class::Heap | Class::Layout);
    match p {
        2 => k == Class::Own,
        3 => k == Class::Heap,
        4 => k == Class::Layout,
        5 => k == Class::Cap,
        7 => matches!(k, Class::Amort | Class::Content),
        10 => k == Class::Iter || k == Class::Content,
        11 | 18 => k == Class::Traits || damage,
        13 => k == Class::Traits || damage,
        14 => k == Class::Conv || damage,
        15 => matches!(k, Class::Deliver | Class::Content | Class::Layout),
        16 => matches!(k, Class::Own | Class::Heap),
        17 => matches!(k, Class::Own | Class::Heap | Class::Content | Class::Deliver),
        _ => false,
    }
}

/// All lists over `0..n` of length `len`, in order.
pub fn lists(n: u8, len: usize, f: &mut dyn FnMut(&[u8])) {
    let mut a = vec![0u8; len];
    loop {
        f(&a);
        let mut i = len;
        loop {
            if i == 0 {
                return;
            }
            i -= 1;
            a[i] += 1;
            if a[i] < n {
                break;
            }
            a[i] = 0;
        }
    }
}
