//! Property-based checks of 52/stacks.rs.
pub mod alloc;
pub mod checks;
pub mod model;
pub mod refc;
pub mod refhash;
#[macro_use]
pub mod runner;
pub mod txmodel;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
