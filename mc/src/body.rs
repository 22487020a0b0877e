// What every worker is made of; which drivers and families are compiled in is up to the
// macros of the file that includes this one.
#[macro_use]
mod fam;
#[macro_use]
mod rt;
mod amort;
mod astro;
mod cases;
mod conv;
mod elem;
mod empl;
mod iters;
mod parent;
mod plans;
mod talloc;
mod traits;
mod vecdrv;

#[global_allocator]
static GA: talloc::TA = talloc::TA;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).map(String::as_str).unwrap_or("");
    let code = match arg(1) {
        "work" => {
            rt::install_hooks();
            parent::work(arg(2), arg(3), arg(4).parse().unwrap(), arg(5))
        }
        "describe" => parent::describe_here(arg(2)),
        "rerun" => {
            rt::install_hooks();
            parent::rerun(arg(2))
        }
        _ => {
            eprintln!("a worker: run mc");
            2
        }
    };
    std::process::exit(code);
}
