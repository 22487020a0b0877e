//! A worker: conv, families a b c d.
#![feature(alloc_error_hook, panic_can_unwind, unsized_fn_params, ptr_metadata, unsize, allocator_api)]
#![allow(internal_features, dead_code, unused_macros, unused_imports, unreachable_code, unused_variables)]
macro_rules! on {
    (conv $x:block) => { $x };
    ($d:ident $x:block) => { unreachable!("another worker does that") };
}
macro_rules! anyon {
    (empl lists texts $x:block) => { unreachable!("another worker does that") };
}
macro_rules! group {
    (a $x:block) => { $x };
    (b $x:block) => { $x };
    (c $x:block) => { $x };
    (d $x:block) => { $x };
    ($d:ident $x:block) => { unreachable!("another worker does that") };
}
include!("body.rs");
