//! wasm32 host: node supplies the log and exit functions.
#![allow(clippy::missing_safety_doc)]
#[link(wasm_import_module = "env")]
extern "C" {
    fn js_log(p: *const u8, n: usize);
    fn js_exit(code: i32) -> !;
}
#[no_mangle]
fn hwmc_log(s: &str) {
    unsafe { js_log(s.as_ptr(), s.len()) }
}
#[no_mangle]
fn hwmc_exit(code: i32) -> ! {
    unsafe { js_exit(code) }
}
#[global_allocator]
static GLOBAL: hwmc::host::Mon = hwmc::host::Mon;

#[no_mangle]
pub extern "C" fn buf(n: usize) -> *mut u8 {
    Box::leak(vec![0u8; n].into_boxed_slice()).as_mut_ptr()
}
#[no_mangle]
pub unsafe extern "C" fn run(p: *const u8, n: usize, t: *const u8, m: usize) {
    let params = core::str::from_utf8(core::slice::from_raw_parts(p, n)).unwrap();
    let text = core::str::from_utf8(core::slice::from_raw_parts(t, m)).unwrap();
    hwmc::host::setup(&hwmc::ctx::Params::parse(params));
    if text.is_empty() {
        hwmc::run::run(params);
    } else {
        hwmc::run::script(params, text);
    }
}

/// Called by the host after a trap.
#[no_mangle]
pub extern "C" fn trapped() {
    if hwmc::plat::in_lib() {
        hwmc::plat::left_lib();
        let s = hwmc::plat::current_script();
        hwmc::plat::violation("trap", "wasm trap inside a library call", &s);
    }
}
