pub mod anneal;
pub mod ast;
pub mod iters;
pub mod num;
pub mod probe;
pub mod prng;
pub mod run;

#[global_allocator]
static ALLOC: run::Counting = run::Counting;
pub mod search;
pub mod wide;
