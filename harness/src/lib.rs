#![allow(clippy::all)]
pub mod alloc;
pub mod engine;
pub mod model;
pub mod props;
pub mod registry;

#[global_allocator]
static GLOBAL: alloc::Acct = alloc::Acct;
pub mod cover;
