//! An allocator that can keep freed memory from being used again for a while.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Quarantine;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    // Never dropped: only filled between `on` and `off`.
    static KEPT: UnsafeCell<std::mem::ManuallyDrop<Vec<(usize, Layout)>>> =
        const { UnsafeCell::new(std::mem::ManuallyDrop::new(Vec::new())) };
}

unsafe impl GlobalAlloc for Quarantine {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let on = ON.try_with(|o| o.get()).unwrap_or(false);
        if on && l.size() <= 512 {
            // growing the list must not end up here again
            ON.with(|o| o.set(false));
            KEPT.with(|k| (*k.get()).push((p as usize, l)));
            ON.with(|o| o.set(true));
        } else {
            System.dealloc(p, l)
        }
    }
}

pub fn on() {
    ON.with(|o| o.set(true));
}

pub fn off() {
    ON.with(|o| o.set(false));
    let v: Vec<(usize, Layout)> = KEPT.with(|k| unsafe { std::mem::take(&mut **k.get()) });
    for (p, l) in v {
        unsafe { System.dealloc(p as *mut u8, l) };
    }
}
