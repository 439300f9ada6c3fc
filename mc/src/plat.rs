//! The few services the explorers need from their host; supplied by the binary
//! (native process, wasm module, bare-metal image).
use alloc::string::String;

extern "Rust" {
    fn hwmc_log(s: &str);
    fn hwmc_exit(code: i32) -> !;
}

pub fn log(s: &str) {
    unsafe { hwmc_log(s) }
}
pub fn exit(code: i32) -> ! {
    unsafe { hwmc_exit(code) }
}

/// A violation: print it with the minimal script that replays it, and stop.
pub fn violation(kind: &str, what: &str, script: &str) -> ! {
    let mut s = String::from("HWMC-VIOLATION kind=");
    s.push_str(kind);
    s.push_str(" what=");
    s.push_str(what);
    log(&s);
    log("HWMC-SCRIPT-BEGIN");
    log(script);
    log("HWMC-SCRIPT-END");
    exit(3)
}

/// Whether wrong values are what this run is looking for. Runs that look for panics, faults or
/// allocations only count them: they are other properties' business.
pub static mut VALUES: bool = true;
pub static mut DIFFERENT: u64 = 0;

/// A value that differs from its reference.
#[cold]
pub fn differs(what: &str, script: impl FnOnce() -> String) {
    unsafe {
        DIFFERENT += 1;
        if VALUES {
            left_lib();
            violation("value", what, &script());
        }
    }
}

// ---- monitors around every library call -------------------------------------------------

/// Set while control is inside the library under test.
pub static mut IN_LIB: bool = false;
/// Heap allocations made while inside the library.
pub static mut ALLOCS: u64 = 0;
/// Run right before and right after every library call (the concurrency explorers' hooks).
pub static mut STEP: Option<(fn(), fn())> = None;
/// Library calls made.
pub static mut CALLS: u64 = 0;
/// Renders the case being executed; used by the panic and signal monitors.
pub static mut CURRENT: Option<(fn(*const ()) -> String, *const ())> = None;

#[inline(always)]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        core::ptr::write_volatile(&raw mut IN_LIB, true);
        CALLS += 1;
        if let Some((enter, _)) = STEP {
            enter();
        }
    }
    let r = f();
    unsafe {
        if let Some((_, leave)) = STEP {
            leave();
        }
        core::ptr::write_volatile(&raw mut IN_LIB, false);
    }
    r
}

pub fn current_script() -> String {
    unsafe {
        match CURRENT {
            Some((f, p)) => f(p),
            None => String::from("# no current case"),
        }
    }
}

/// Called by the allocation monitors.
#[inline]
pub fn on_alloc() {
    unsafe {
        if core::ptr::read_volatile(&raw const IN_LIB) {
            ALLOCS += 1;
        }
    }
}

/// A monitor fired: what runs from here on is the harness.
pub fn left_lib() {
    unsafe { core::ptr::write_volatile(&raw mut IN_LIB, false) }
}

/// Called by panic monitors: was the panic raised by a library call?
pub fn in_lib() -> bool {
    unsafe { core::ptr::read_volatile(&raw const IN_LIB) }
}
