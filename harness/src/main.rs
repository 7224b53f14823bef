#![allow(dead_code)]
#![allow(unused_imports, unused_mut, unreachable_code)]
#[macro_use]
mod data;
mod alloc;
mod digest;
mod down;
mod extra;
mod fault;
mod held;
mod life;
mod mem;
mod model;
mod norm;
mod observe;
mod once;
mod sched;
mod ops;
mod props;
mod rec;
mod runner;
mod specs;
mod tape;
mod tree;
mod zero;

fn main() {
    runner::main()
}
