//! Monitors shared by the hosts that have std: heap allocations and panics.
use crate::ctx::Params;
use crate::plat;
use std::alloc::{GlobalAlloc, Layout, System};
use std::string::ToString;

static mut STRICT_ALLOC: bool = false;
pub struct Mon;
impl Mon {
    #[inline]
    pub fn hit() {
        plat::on_alloc();
        unsafe {
            if STRICT_ALLOC && plat::in_lib() {
                STRICT_ALLOC = false;
                plat::left_lib();
                let s = plat::current_script();
                plat::violation("alloc", "heap allocation inside a library call", &s);
            }
        }
    }
}
unsafe impl GlobalAlloc for Mon {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        Mon::hit();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        Mon::hit();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        Mon::hit();
        System.realloc(p, l, n)
    }
}

pub fn setup(p: &Params) {
    unsafe {
        STRICT_ALLOC = p.get("alloc") == Some("strict");
    }
    std::panic::set_hook(std::boxed::Box::new(|i| {
        let what = i.to_string().replace('\n', " ");
        if plat::in_lib() {
            plat::left_lib();
            plat::violation("panic", &what, &plat::current_script());
        }
        plat::log(&std::format!("HWMC-ERROR harness panic: {}", what));
        plat::exit(2);
    }));
}
