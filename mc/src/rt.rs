//! Runtime shared by all drivers: registry of live values, drop log, injected panics,
//! panic capture, violation recording, and the shared status page of a worker.

use crate::talloc;
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const SLOTS: usize = 320;
/// Slot of a zero-sized kind with alignment `a` (one slot per alignment).
pub fn zslot(align: usize) -> usize {
    256 + align.trailing_zeros() as usize
}

pub struct Rt {
    pub live: [i32; SLOTS],
    pub log: [u16; 1024],
    pub nlog: usize,
    /// (what, slot) of the first destructor-related error
    pub own_err: Option<(&'static str, usize)>,
    pub tick_at: u64,
    pub ticks: u64,
    pub fired: bool,
    pub msg: [u8; 160],
    pub msg_len: usize,
    pub panics: u64,
}
pub static mut RT: Rt = Rt {
    live: [0; SLOTS],
    log: [0; 1024],
    nlog: 0,
    own_err: None,
    tick_at: 0,
    ticks: 0,
    fired: false,
    msg: [0; 160],
    msg_len: 0,
    panics: 0,
};

#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *core::ptr::addr_of_mut!(RT) }
}

pub fn reset() {
    let r = rt();
    r.live = [0; SLOTS];
    r.nlog = 0;
    r.own_err = None;
    r.tick_at = 0;
    r.ticks = 0;
    r.fired = false;
    r.msg_len = 0;
    talloc::reset();
}

pub fn born(slot: usize) {
    rt().live[slot] += 1;
}
pub fn died(slot: usize) {
    let r = rt();
    r.live[slot] -= 1;
    if r.live[slot] < 0 && r.own_err.is_none() {
        r.own_err = Some(("value dropped more often than it was created", slot));
    }
    if r.nlog < r.log.len() {
        r.log[r.nlog] = slot as u16;
        r.nlog += 1;
    }
}
pub fn corrupt_drop(slot: usize) {
    let r = rt();
    if r.own_err.is_none() {
        r.own_err = Some(("destructor ran on a corrupt value", slot));
    }
}

/// Marker payload of injected panics.
pub struct Injected;

/// A call into caller-supplied code: panics if this is the call chosen to panic.
#[inline]
pub fn tick() {
    let r = rt();
    if r.tick_at == 0 || std::thread::panicking() {
        return;
    }
    r.ticks += 1;
    if r.ticks == r.tick_at {
        r.fired = true;
        std::panic::panic_any(Injected);
    }
}
/// Arms the k-th call from now (0 disarms).
pub fn arm(k: u64) {
    let r = rt();
    r.tick_at = k;
    r.ticks = 0;
    r.fired = false;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ended {
    Ok,
    Injected,
    /// Panicked with the message in `rt().msg`
    Panic,
}

pub fn msg() -> String {
    let r = rt();
    String::from_utf8_lossy(&r.msg[..r.msg_len]).into_owned()
}
pub fn set_msg(s: &str) {
    let r = rt();
    let n = s.len().min(r.msg.len());
    r.msg[..n].copy_from_slice(&s.as_bytes()[..n]);
    r.msg_len = n;
}

/// Runs code under test: tracking on, panics caught.
#[inline]
pub fn guarded<R>(f: impl FnOnce() -> R) -> (Ended, Option<R>) {
    talloc::on();
    let r = catch_unwind(AssertUnwindSafe(f));
    talloc::off();
    match r {
        Ok(v) => (Ended::Ok, Some(v)),
        Err(p) => {
            if p.is::<Injected>() {
                (Ended::Injected, None)
            } else {
                (Ended::Panic, None)
            }
        }
    }
}

pub const OOM_MSG: &str = "mc: allocation error";

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        talloc::off();
        let r = rt();
        r.panics += 1;
        if info.payload().is::<Injected>() {
            r.msg_len = 0;
            return;
        }
        use std::fmt::Write;
        struct B<'a>(&'a mut Rt);
        impl Write for B<'_> {
            fn write_str(&mut self, s: &str) -> std::fmt::Result {
                let r = &mut *self.0;
                let n = s.len().min(r.msg.len() - r.msg_len);
                r.msg[r.msg_len..r.msg_len + n].copy_from_slice(&s.as_bytes()[..n]);
                r.msg_len += n;
                Ok(())
            }
        }
        r.msg_len = 0;
        let mut b = B(r);
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            let _ = b.write_str(s);
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            let _ = b.write_str(s);
        }
        if let Some(l) = info.location() {
            let f = l.file();
            let f = f.rsplit('/').next().unwrap_or(f);
            let _ = write!(b, " @{}:{}", f, l.line());
        }
        if !info.can_unwind() {
            eprintln!("mc: non-unwinding panic: {}", msg());
        }
    }));
    std::alloc::set_alloc_error_hook(|l| {
        talloc::off();
        talloc::tell(l);
        std::panic::panic_any(OOM_MSG);
    });
}

/// What kind of promise was found broken.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Class {
    Content,
    Own,
    Heap,
    Layout,
    Cap,
    Shrink,
    Amort,
    Exact,
    Try,
    Iter,
    Oob,
    Traits,
    Conv,
    Deliver,
    Panic,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub class: Class,
    pub what: String,
}
pub type Res<T = ()> = Result<T, Fail>;

#[cold]
pub fn fail<T>(class: Class, what: impl Into<String>) -> Res<T> {
    Err(Fail { class, what: what.into() })
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($f:tt)*) => {
        if !$c { return $crate::rt::fail($class, format!($($f)*)); }
    };
}

/// Destructor and heap errors noticed so far.
pub fn check_heap() -> Res {
    if let Some(b) = talloc::check() {
        return fail(Class::Heap, format!("heap: {b:?}"));
    }
    Ok(())
}
pub fn check_own() -> Res {
    if let Some((w, s)) = rt().own_err {
        return fail(Class::Own, format!("{w} (value {s})"));
    }
    Ok(())
}

/// Status page shared with the parent, so that a crash or hang can be attributed.
pub struct Status {
    page: *mut u8,
    len: usize,
}
pub static mut STATUS: Status = Status { page: core::ptr::null_mut(), len: 0 };
unsafe extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
pub const STATUS_LEN: usize = 64 << 10;
pub fn open_status(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
    f.set_len(STATUS_LEN as u64).unwrap();
    let p = unsafe { mmap(core::ptr::null_mut(), STATUS_LEN, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    unsafe { STATUS = Status { page: p, len: STATUS_LEN } };
}
/// Records the case about to run (raw bytes; decoded by the parent).
#[inline]
pub fn note(bytes: &[u8]) {
    unsafe {
        let s = &mut *core::ptr::addr_of_mut!(STATUS);
        if s.page.is_null() {
            return;
        }
        let n = bytes.len().min(s.len - 16);
        let ctr = s.page as *mut u64;
        ctr.write_volatile(ctr.read_volatile().wrapping_add(1));
        (s.page.add(8) as *mut u64).write_volatile(n as u64);
        core::ptr::copy_nonoverlapping(bytes.as_ptr(), s.page.add(16), n);
    }
}
