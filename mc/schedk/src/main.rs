//! Engine S. `run` explores, for every scenario of a property, all schedules
//! within the scenario's bounds; `one` runs a single schedule.
mod explore;
mod scen;

use std::alloc::{GlobalAlloc, Layout};
struct A;
extern "C" {
    fn mc_freed(p: *mut u8, n: usize);
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        enumk::alloc::Poison.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        enumk::alloc::Poison.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 0 {
            mc_freed(p, l.size());
        }
        enumk::alloc::Poison.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;

fn main() {
    explore::main()
}
