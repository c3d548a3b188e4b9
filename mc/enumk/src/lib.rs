pub mod alloc;
pub mod calls;
pub mod data;
pub mod engine;
pub mod extreme;
pub mod num;
pub mod oracle;
pub mod probe;
pub mod structure;
pub mod uni;

#[cfg(not(feature = "san"))]
#[global_allocator]
static ALLOC: alloc::Poison = alloc::Poison;
