//! How much a call allocates: a measure of its work that does not depend on the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}

fn tick() {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Counting = Counting;

pub fn allocations() -> u64 {
    ALLOCS.with(|a| a.get())
}

/// allocations made by parsing the text, and whether it was accepted
pub fn parse_work(text: &str) -> (u64, crate::api::Out<()>) {
    crate::api::raw_parse(text)
}
