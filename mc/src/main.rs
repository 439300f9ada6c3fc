//! Native host for the explorers: logging, panic and signal monitors, allocation monitor.
use std::io::Write;

#[no_mangle]
fn hwmc_log(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = o.write_all(s.as_bytes());
    let _ = o.write_all(b"\n");
    let _ = o.flush();
}
#[no_mangle]
fn hwmc_exit(code: i32) -> ! {
    std::process::exit(code)
}

#[global_allocator]
static GLOBAL: hwmc::host::Mon = hwmc::host::Mon;

/// The C library's allocator, watched: an allocation need not go through Rust's.
#[cfg(all(feature = "malloc", target_os = "linux", target_env = "gnu"))]
mod c_alloc {
    use hwmc::host::Mon;
    extern "C" {
        fn __libc_malloc(n: usize) -> *mut u8;
        fn __libc_calloc(k: usize, n: usize) -> *mut u8;
        fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
        fn __libc_memalign(a: usize, n: usize) -> *mut u8;
    }
    #[no_mangle]
    unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
        Mon::hit();
        __libc_malloc(n)
    }
    #[no_mangle]
    unsafe extern "C" fn calloc(k: usize, n: usize) -> *mut u8 {
        Mon::hit();
        __libc_calloc(k, n)
    }
    #[no_mangle]
    unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
        Mon::hit();
        __libc_realloc(p, n)
    }
    #[no_mangle]
    unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut u8 {
        Mon::hit();
        __libc_memalign(a, n)
    }
    #[no_mangle]
    unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 {
        Mon::hit();
        __libc_memalign(a, n)
    }
    #[no_mangle]
    unsafe extern "C" fn posix_memalign(p: *mut *mut u8, a: usize, n: usize) -> i32 {
        Mon::hit();
        *p = __libc_memalign(a, n);
        if (*p).is_null() { 12 } else { 0 }
    }
}

#[cfg(all(unix, not(miri)))]
mod sig {
    use hwmc::plat;
    extern "C" {
        fn sigaction(s: i32, a: *const Act, o: *mut Act) -> i32;
        fn sigaltstack(a: *const Stack, o: *mut Stack) -> i32;
    }
    #[repr(C)]
    struct Act {
        handler: usize,
        // glibc's struct sigaction on Linux: handler, mask (128 bytes), flags, restorer
        mask: [u8; 128],
        flags: i32,
        restorer: usize,
    }
    #[repr(C)]
    struct Stack {
        sp: *mut u8,
        flags: i32,
        size: usize,
    }
    static mut TICK: (u64, u64) = (0, 0);
    pub static mut LIMIT: u64 = 200;
    /// Once a second: is the library still inside the call it was in?
    extern "C" fn tick(_: i32) {
        unsafe {
            let c = core::ptr::read_volatile(&raw const plat::CALLS);
            if !plat::in_lib() || TICK.0 != c {
                TICK = (c, 0);
                return;
            }
            TICK.1 += 1;
            if TICK.1 > LIMIT {
                plat::left_lib();
                let s = plat::current_script();
                plat::violation("hang", "a library call does not return", &s);
            }
        }
    }
    extern "C" {
        fn setitimer(which: i32, new: *const [isize; 4], old: *mut [isize; 4]) -> i32;
    }
    extern "C" fn on(sig: i32) {
        if plat::in_lib() {
            plat::left_lib();
            let s = plat::current_script();
            plat::violation("signal", &format!("signal {} inside a library call", sig), &s);
        }
        plat::log(&format!("HWMC-ERROR signal {} in the harness", sig));
        plat::exit(2);
    }
    pub fn install() {
        unsafe {
            let st = Stack {
                sp: Box::leak(vec![0u8; 1 << 18].into_boxed_slice()).as_mut_ptr(),
                flags: 0,
                size: 1 << 18,
            };
            sigaltstack(&st, core::ptr::null_mut());
            let a = Act {
                handler: on as *const () as usize,
                mask: [0; 128],
                flags: 0x0800_0000 | 0x4000_0000, // SA_ONSTACK | SA_NODEFER
                restorer: 0,
            };
            for s in [4, 5, 7, 8, 11] {
                sigaction(s, &a, core::ptr::null_mut());
            }
            let t = Act {
                handler: tick as *const () as usize,
                mask: [0; 128],
                flags: 0x0800_0000 | 0x1000_0000, // SA_ONSTACK | SA_RESTART
                restorer: 0,
            };
            sigaction(14, &t, core::ptr::null_mut());
            setitimer(0, &[1, 0, 1, 0], core::ptr::null_mut());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let joined = args.join(" ");
    let p = hwmc::ctx::Params::parse(&joined);
    hwmc::host::setup(&p);
    #[cfg(all(unix, not(miri)))]
    {
        unsafe { sig::LIMIT = p.num("hang", 200) };
        sig::install();
    }
    if let Some(f) = p.get("script") {
        let t = std::fs::read_to_string(f).expect("script file");
        hwmc::run::script(&joined, &t);
        return;
    }
    hwmc::run::run(&joined);
}
