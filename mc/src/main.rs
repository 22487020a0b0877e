//! `mc check <property>`: decides one property by exhaustive bounded exploration of the
//! real code. `mc replay <file>` re-runs a recorded violation.
#![feature(alloc_error_hook, panic_can_unwind, unsized_fn_params, ptr_metadata, unsize, allocator_api)]
#![allow(internal_features, dead_code, unused_macros, unused_imports, unreachable_code, unused_variables)]
// The parent has no drivers: it starts the workers.
macro_rules! on {
    ($d:ident $x:block) => { unreachable!("a worker does that") };
}
macro_rules! anyon {
    ($($d:ident)* $x:block) => { unreachable!("a worker does that") };
}
macro_rules! group {
    ($d:ident $x:block) => { unreachable!("a worker does that") };
}
#[macro_use]
mod fam;
#[macro_use]
mod rt;
mod amort;
mod astro;
mod cases;
mod conv;
mod elem;
mod empl;
mod iters;
mod parent;
mod plans;
mod talloc;
mod traits;
mod vecdrv;

#[global_allocator]
static GA: talloc::TA = talloc::TA;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "check" => parent::check(arg(2)),
        "replay" => parent::replay(arg(2)),
        "bins" => parent::list_bins(arg(2)),
        "jobs" => parent::list(arg(2), arg(3)),
        _ => {
            eprintln!("usage: mc check C01..C18 | mc replay FILE");
            2
        }
    };
    std::process::exit(code);
}
