//! Memory safety and address independence (C09): the same bytes at every alignment, abutting
//! unmapped pages on either side, in read-only memory, between different neighbours; the hasher
//! itself abutting unmapped pages. The reference is the same operations on the same type with
//! everything in ordinary memory. Under valgrind every byte around the data and the hasher is
//! marked inaccessible instead.
use crate::backends::H;
use crate::ctx::*;
use crate::data;
use crate::plat::{self, lib};
use crate::with_backend;
use highway::{HighwayHash, Key};
use std::format;
use std::string::String;
use std::vec;
use std::vec::Vec;

const KEY: [u64; 4] = crate::lattice::KEY1;

// ---- memory ---------------------------------------------------------------------------
// A region is readable (for the library) at `ro`, writable (for the explorer) at `rw`, and
// surrounded by unmapped pages at both views.

#[cfg(all(target_os = "linux", not(miri)))]
mod mem {
    extern "C" {
        fn memfd_create(name: *const u8, flags: u32) -> i32;
        fn ftruncate(fd: i32, n: isize) -> i32;
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
        fn sysconf(n: i32) -> isize;
    }
    #[derive(Clone, Copy)]
    pub struct Region {
        pub ro: *mut u8,
        pub rw: *mut u8,
        pub n: usize,
    }
    pub fn region(min: usize) -> Region {
        unsafe {
            let page = sysconf(30) as usize;
            assert!(page >= 4096 && page.is_power_of_two());
            let n = min.div_ceil(page) * page;
            let fd = memfd_create(c"hw".as_ptr().cast(), 0);
            assert!(fd >= 0 && ftruncate(fd, n as isize) == 0, "memfd");
            let view = |prot: i32| {
                let a = mmap(core::ptr::null_mut(), n + 2 * page, 0, 0x22, -1, 0);
                assert!(a as isize != -1);
                let p = mmap(a.add(page), n, prot, 0x11, fd, 0);
                assert!(p == a.add(page));
                p
            };
            Region { ro: view(1), rw: view(3), n }
        }
    }
}
#[cfg(target_arch = "wasm32")]
mod mem {
    #[derive(Clone, Copy)]
    pub struct Region {
        pub ro: *mut u8,
        pub rw: *mut u8,
        pub n: usize,
    }
    /// The region made last ends where linear memory ends: reading past it traps. (Address 0 is
    /// readable, so nothing guards the front.)
    pub fn region(min: usize) -> Region {
        drop(core::hint::black_box(std::vec![1u8; 1 << 25]));
        let k = min.div_ceil(65536);
        let p = core::arch::wasm32::memory_grow(0, k) * 65536;
        assert!(p as isize != -65536, "memory_grow");
        Region { ro: p as *mut u8, rw: p as *mut u8, n: k * 65536 }
    }
    pub fn at_end(r: &Region) -> bool {
        r.rw as usize + r.n == core::arch::wasm32::memory_size(0) * 65536
    }
}
#[cfg(not(any(target_arch = "wasm32", all(target_os = "linux", not(miri)))))]
mod mem {
    #[derive(Clone, Copy)]
    pub struct Region {
        pub ro: *mut u8,
        pub rw: *mut u8,
        pub n: usize,
    }
    /// No page protection here (Miri checks every access itself).
    pub fn region(min: usize) -> Region {
        let v = std::vec![0u128; min.div_ceil(16) + 8];
        let p = std::vec::Vec::leak(v).as_mut_ptr() as *mut u8;
        let p = unsafe { p.add((64 - p as usize % 64) % 64) };
        Region { ro: p, rw: p, n: min }
    }
}
use mem::{region, Region};

/// Put `d` at offset `at`, the 64 bytes on both sides filled with `fill`; what the library sees.
fn place(r: &Region, at: usize, d: &[u8], fill: u8) -> &'static [u8] {
    unsafe {
        let lo = at.saturating_sub(64);
        let hi = (at + d.len() + 64).min(r.n);
        for i in (lo..at).chain(at + d.len()..hi) {
            *r.rw.add(i) = fill;
        }
        core::ptr::copy_nonoverlapping(d.as_ptr(), r.rw.add(at), d.len());
        core::slice::from_raw_parts(r.ro.add(at), d.len())
    }
}

/// Overwrite the unused stack below with a pattern.
#[inline(never)]
fn scrub(v: u8) {
    let mut a = [0u8; 6000];
    for x in a.iter_mut() {
        unsafe { core::ptr::write_volatile(x, v) };
    }
    core::hint::black_box(&a);
}

struct Cur {
    b: u8,
    what: &'static str,
    p: usize,
    n: usize,
    m: usize,
    at: usize,
}
fn render(p: *const ()) -> String {
    let c = unsafe { &*(p as *const Cur) };
    format!(
        "# no script: {} on {}: pending {} bytes, then {} and {} bytes, offset {}\n",
        c.what,
        crate::backends::name(c.b),
        c.p,
        c.n,
        c.m,
        c.at
    )
}

type Out = (u64, [u64; 2], [u64; 4], [u8; 164]);
/// All observations of feeding the chunks to a hasher that lives in ordinary memory.
fn run<B: H>(chunks: &[&[u8]]) -> Out {
    let mut h = lib(|| B::mk(Key(KEY)));
    for d in chunks {
        lib(|| HighwayHash::append(&mut h, d));
    }
    finish(h)
}
fn finish<B: H>(h: B) -> Out {
    let mut ck = lib(|| HighwayHash::checkpoint(&h));
    // bytes beyond the pending count are C14's business
    let n = (ck[160] as usize).min(32);
    for x in &mut ck[128 + n..160] {
        *x = 0;
    }
    let a = h.clone();
    let b = h.clone();
    (lib(move || HighwayHash::finalize64(a)), lib(move || HighwayHash::finalize128(b)), lib(move || HighwayHash::finalize256(h)), ck)
}

fn compare(cx: &mut Ctx, got: &Out, want: &Out) {
    cx.evals += 1;
    if got != want {
        plat::differs("the result depends on where the data or the hasher lives, or on its neighbours", plat::current_script);
    }
    vg::after();
    cx.outcomes.add(want.0);
    cx.digest = cx.digest.wrapping_add(fnv(want.0, want.2[0]));
}

macro_rules! cur {
    ($b:ident, $what:expr, $p:expr, $n:expr, $m:expr, $at:expr, $body:expr) => {{
        let cur = Cur { b: $b::ID, what: $what, p: $p, n: $n, m: $m, at: $at };
        unsafe { plat::CURRENT = Some((render, &cur as *const Cur as *const ())) };
        let r = $body;
        unsafe { plat::CURRENT = None };
        r
    }};
}

fn fills(cx: &Ctx) -> &'static [u8] {
    if cx.scale >= 1 {
        &[0, 0xff, 0x5b]
    } else {
        &[0, 0xff]
    }
}

fn backend<B: H>(cx: &mut Ctx, r: &[Region; 3]) {
    let src = data::slice(0, 0, 200_000);
    let sc = cx.scale.min(3) as usize;
    let pends: Vec<usize> = if sc >= 1 { (0..32).collect() } else { vec![0, 1, 3, 15, 16, 17, 28, 31] };
    // 1. data abutting an unmapped page, after every pending count
    let mut lens: Vec<usize> = (0..=[40, 130, 700, 2200][sc]).collect();
    if sc >= 1 {
        for k in [1024usize, 2048, 4096, 8192, 16384, 65536] {
            for d in [-64isize, -33, -32, -31, -17, -16, -4, -1, 0, 1, 3, 16, 32, 64] {
                lens.push((k as isize + d) as usize);
            }
        }
        for d in &cx.dict {
            for e in [0, 1, 31] {
                if *d < 70_000 {
                    lens.push(*d as usize + e);
                }
            }
        }
    }
    lens.sort_unstable();
    lens.dedup();
    for &n in &lens {
        for &p in &pends {
            if n > 700 && p % 5 != 1 {
                continue;
            }
            if !cx.take() {
                continue;
            }
            let pre = &src[..p];
            let d = &src[p..p + n];
            let want = cur!(B, "plain", p, n, 0, 0, run::<B>(&[pre, d]));
            cx.states.add(fnv(want.0, n as u64));
            for (what, at) in [("data ends at an unmapped page", r[0].n - n), ("data starts after an unmapped page", 0)] {
                let s = place(&r[0], at, d, 0xee);
                cur!(B, what, p, n, 0, at, {
                    let got = run::<B>(&[pre, s]);
                    compare(cx, &got, &want)
                });
            }
        }
    }
    // 2. two chunks, each against its own unmapped page
    let (na, nb) = [(20, 20), (40, 40), (72, 72), (200, 200)][sc];
    for n in 0..=na {
        if !cx.take() {
            continue;
        }
        for m in 0..=nb {
            let (a, b) = (&src[..n], &src[n..n + m]);
            let want = cur!(B, "plain", 0, n, m, 0, run::<B>(&[a, b]));
            for ends in [true, false] {
                let s = place(&r[0], if ends { r[0].n - n } else { 0 }, a, 0x77);
                let t = place(&r[1], if ends { r[1].n - m } else { 0 }, b, 0x77);
                cur!(B, "both chunks against unmapped pages", 0, n, m, 0, {
                    let got = run::<B>(&[s, t]);
                    compare(cx, &got, &want)
                });
            }
        }
    }
    // 3. every alignment, different neighbours, different garbage on the stack
    let top = [34, 70, 140, 400][sc];
    for o in (0..64usize).step_by([13, 1, 1, 1][sc]) {
        for n in 0..=top {
            if !cx.take() {
                continue;
            }
            for &p in &[0usize, 1, 7, 16, 29, 31][..[1, 2, 6, 6][sc]] {
                let pre = &src[..p];
                let d = &src[p..p + n];
                let want = cur!(B, "plain", p, n, 0, 0, run::<B>(&[pre, d]));
                for &f in fills(cx) {
                    let s = place(&r[0], 1024 + o, d, f);
                    scrub(!f);
                    cur!(B, "alignment and neighbours", p, n, 0, 1024 + o, {
                        let got = run::<B>(&[pre, s]);
                        compare(cx, &got, &want)
                    });
                }
            }
        }
    }
    // 4. the hasher itself against an unmapped page, in memory with different old contents
    let size = core::mem::size_of::<B>();
    let top = [10, 40, 70, 200][sc];
    for p in 0..=top {
        if !cx.take() {
            continue;
        }
        for n in 0..=top {
            let (a, b) = (&src[..p], &src[p..p + n]);
            // every operation on the hasher at `h`
            let drive = |h: *mut B| unsafe {
                h.write(lib(|| B::mk(Key(KEY))));
                lib(|| HighwayHash::append(&mut *h, a));
                let c = lib(|| HighwayHash::checkpoint(&*h));
                let x = lib(|| (*h).h_finish());
                lib(|| HighwayHash::append(&mut *h, b));
                let twin = lib(|| (*h).clone());
                let o = finish(twin);
                // through the restored object, in the same place
                h.write(lib(|| B::rs(c)));
                let y = lib(|| (*h).h_finish());
                lib(|| HighwayHash::append(&mut *h, b));
                let o2 = finish(h.read());
                (x, y, o, o2)
            };
            let mut plain = std::boxed::Box::new(core::mem::MaybeUninit::<B>::uninit());
            let want = cur!(B, "hasher in ordinary memory", p, n, 0, 0, drive(plain.as_mut_ptr()));
            for (what, at) in [("hasher ends at an unmapped page", r[2].n - size), ("hasher starts after an unmapped page", 0)] {
                for &f in fills(cx) {
                    unsafe { core::ptr::write_bytes(r[2].rw, f, r[2].n) };
                    scrub(f);
                    cur!(B, what, p, n, 0, at, {
                        let got = drive(unsafe { r[2].rw.add(at) } as *mut B);
                        cx.evals += 1;
                        if got != want {
                            plat::differs("the result depends on where the hasher lives", plat::current_script);
                        }
                    });
                }
            }
        }
    }
    // 5. arbitrary restored counts, against unmapped pages
    for n in (0u32..=70).chain([255, 256, 4096, u32::MAX]) {
        if !cx.take() {
            continue;
        }
        let mut c = [0x3cu8; 164];
        c[160..].copy_from_slice(&n.to_le_bytes());
        let go = |extra: &[u8]| {
            let mut h = lib(|| B::rs(c));
            lib(|| HighwayHash::append(&mut h, extra));
            finish(h)
        };
        for m in [0usize, 1, 4, 31, 32, 33, 64] {
            let d = &src[..m];
            let want = cur!(B, "plain restore", n as usize, m, 0, 0, go(d));
            let s = place(&r[0], r[0].n - m, d, 1);
            scrub(0x99);
            cur!(B, "restored hasher, data ends at an unmapped page", n as usize, m, 0, 0, {
                let got = go(s);
                compare(cx, &got, &want)
            });
        }
    }
}

/// Valgrind: every byte around data and hasher inaccessible, every output fully defined.
fn checked_memory<B: H>(cx: &mut Ctx) {
    let src = data::slice(0, 0, 4096);
    let size = core::mem::size_of::<B>();
    let sc = cx.scale.min(3) as usize;
    let top = [34, 70, 140, 300][sc];
    let mut block = vec![0u64; 600];
    let base = block.as_mut_ptr() as *mut u8;
    let base = unsafe { base.add((64 - base as usize % 64) % 64) };
    let mut home = vec![0u64; size / 8 + 80];
    let hp = home.as_mut_ptr() as *mut u8;
    let hp = unsafe { hp.add((64 - hp as usize % 64) % 64 + 128) };
    let offs: &[usize] = [&[0usize, 5][..], &[0, 1, 4, 9, 16, 31], &[0, 1, 2, 3, 4, 5, 8, 12, 15, 16, 17, 24, 28, 31, 32, 47, 63], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24, 28, 29, 30, 31, 32, 33, 40, 47, 48, 56, 60, 61, 62, 63]][sc];
    let pends: &[usize] = [&[0usize, 3][..], &[0, 1, 3, 16, 31], &[0, 1, 2, 3, 4, 7, 8, 13, 15, 16, 17, 20, 27, 28, 31], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31]][sc];
    for n in 0..=top {
        for &o in offs {
            if !cx.take() {
                continue;
            }
            for &p in pends {
                cur!(B, "every byte around data and hasher inaccessible", p, n, 0, o, unsafe {
                    let at = base.add(128 + o);
                    vg::defined(base, 1024);
                    core::ptr::copy_nonoverlapping(src.as_ptr(), at, n);
                    vg::noaccess(base, 128 + o);
                    vg::noaccess(at.add(n), 200);
                    vg::noaccess(hp.sub(64), 64);
                    vg::noaccess(hp.add(size), 64);
                    vg::undefined(hp, size);
                    let d = core::slice::from_raw_parts(at, n);
                    let h = hp as *mut B;
                    h.write(lib(|| B::mk(Key(KEY))));
                    lib(|| HighwayHash::append(&mut *h, &src[..p]));
                    lib(|| HighwayHash::append(&mut *h, d));
                    let c = lib(|| HighwayHash::checkpoint(&*h));
                    vg::must_be_defined(c.as_ptr(), 164);
                    let x = lib(|| (*h).h_finish());
                    vg::must_be_defined(&x as *const u64 as *const u8, 8);
                    let a = lib(|| (*h).clone());
                    let b = lib(|| (*h).clone());
                    let o128 = lib(move || HighwayHash::finalize128(a));
                    vg::must_be_defined(o128.as_ptr() as *const u8, 16);
                    let o256 = lib(move || HighwayHash::finalize256(b));
                    vg::must_be_defined(o256.as_ptr() as *const u8, 32);
                    let r = lib(|| B::rs(c));
                    h.write(r);
                    let y = lib(|| (*h).h_finish());
                    vg::must_be_defined(&y as *const u64 as *const u8, 8);
                    vg::defined(base, 1024);
                    vg::defined(hp.sub(64), size + 128);
                    core::hint::black_box(y);
                    cx.evals += 1;
                    cx.outcomes.add(x);
                    vg::after();
                });
            }
        }
    }
    // arbitrary restores
    for n in (0u32..40).chain([64, u32::MAX]) {
        if !cx.take() {
            continue;
        }
        let mut c = [0x3cu8; 164];
        c[160..].copy_from_slice(&n.to_le_bytes());
        cur!(B, "arbitrary restore", n as usize, 0, 0, 0, {
            let h = lib(|| B::rs(c));
            let k = lib(|| HighwayHash::checkpoint(&h));
            vg::must_be_defined(k.as_ptr(), 164);
            let x = lib(move || HighwayHash::finalize256(h));
            vg::must_be_defined(x.as_ptr() as *const u8, 32);
            vg::after();
            cx.evals += 1;
        });
    }
    drop(block);
    drop(home);
}

/// A small set of cases for an interpreter that checks every access itself (Miri): data and
/// hasher in allocations of exactly their size.
fn micro<B: H>(cx: &mut Ctx) {
    let src = data::slice(0, 0, 256);
    let top = cx.p.num("top", 34) as usize;
    for n in 0..=top {
        for &p in &[0usize, 5, 16, 31] {
            if !cx.take() {
                continue;
            }
            let exact: std::boxed::Box<[u8]> = src[p..p + n].into();
            let pre: std::boxed::Box<[u8]> = src[..p].into();
            cur!(B, "exact allocations", p, n, 0, 0, {
                let mut h = std::boxed::Box::new(lib(|| B::mk(Key(KEY))));
                lib(|| HighwayHash::append(&mut *h, &pre));
                lib(|| HighwayHash::append(&mut *h, &exact));
                let want = lib(|| h.h_finish());
                let c = lib(|| HighwayHash::checkpoint(&*h));
                let twin = std::boxed::Box::new((*h).clone());
                let r = lib(|| B::rs(c));
                let (x, w) = match (n + p) % 3 {
                    0 => (lib(move || HighwayHash::finalize64(*twin)), want),
                    1 => {
                        let o = lib(move || HighwayHash::finalize128(*twin));
                        let o2 = lib(move || HighwayHash::finalize128(r));
                        (o[0] ^ o[1], o2[0] ^ o2[1])
                    }
                    _ => {
                        let o = lib(move || HighwayHash::finalize256(*twin));
                        let o2 = lib(move || HighwayHash::finalize256(r));
                        (o[0] ^ o[3], o2[0] ^ o2[3])
                    }
                };
                core::hint::black_box(w);
                cx.evals += 1;
                cx.outcomes.add(want);
                cx.digest = cx.digest.wrapping_add(fnv(want, x));
            });
        }
    }
    for n in [0u32, 1, 15, 16, 17, 30, 31, 32, 33, 64, u32::MAX] {
        if !cx.take() {
            continue;
        }
        let mut c = [0x3cu8; 164];
        c[160..].copy_from_slice(&n.to_le_bytes());
        cur!(B, "arbitrary restore", n as usize, 0, 0, 0, {
            let h = lib(|| B::rs(c));
            let x = lib(|| h.h_finish());
            let mut g = h.clone();
            lib(|| HighwayHash::append(&mut g, &src[..3]));
            let y = lib(move || HighwayHash::finalize64(g));
            let z = lib(move || HighwayHash::finalize256(h));
            let d = lib(B::h_build_default);
            let v = lib(move || HighwayHash::hash64(d, &src[1..12]));
            cx.digest = cx.digest.wrapping_add(fnv(fnv(x, y), fnv(z[1], v)));
            cx.evals += 1;
            cx.outcomes.add(y);
        });
    }
}
pub fn explore_micro(cx: &mut Ctx) {
    for b in cx.backends.clone() {
        with_backend!(b, B => micro::<B>(cx));
    }
}

pub fn explore(cx: &mut Ctx) {
    // one read-only/read-write region per role; the hasher's region is used through `rw`
    let (h, b) = (region(8192), region(8192));
    let r = [region(1 << 18), b, h];
    for b in cx.backends.clone() {
        with_backend!(b, B => backend::<B>(cx, &r));
    }
    #[cfg(target_arch = "wasm32")]
    assert!(mem::at_end(&r[0]), "linear memory grew past the guarded region");
}
pub fn explore_checked(cx: &mut Ctx) {
    if vg::present() {
        cx.notes.push("memcheck client requests active".into());
    } else if cx.p.get("need") == Some("valgrind") {
        plat::log("HWMC-ERROR not under valgrind");
        plat::exit(2);
    }
    for b in cx.backends.clone() {
        with_backend!(b, B => checked_memory::<B>(cx));
    }
}

// ---- valgrind client requests ------------------------------------------------------------

#[cfg(all(target_arch = "x86_64", target_os = "linux", not(miri)))]
mod vg {
    use crate::plat;
    use std::string::ToString;
    #[inline(never)]
    unsafe fn request(args: &[u64; 6]) -> u64 {
        let mut r = 0u64;
        core::arch::asm!(
            "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
            inout("rdx") r, in("rax") args.as_ptr(), inout("rdi") 0u64 => _,
        );
        r
    }
    const MC: u64 = (('M' as u64) << 24) | (('C' as u64) << 16);
    pub fn present() -> bool {
        unsafe { request(&[0x1001, 0, 0, 0, 0, 0]) != 0 }
    }
    pub unsafe fn noaccess(p: *const u8, n: usize) {
        request(&[MC, p as u64, n as u64, 0, 0, 0]);
    }
    pub unsafe fn undefined(p: *const u8, n: usize) {
        request(&[MC + 1, p as u64, n as u64, 0, 0, 0]);
    }
    pub unsafe fn defined(p: *const u8, n: usize) {
        request(&[MC + 2, p as u64, n as u64, 0, 0, 0]);
    }
    pub fn must_be_defined(p: *const u8, n: usize) {
        unsafe {
            if request(&[MC + 5, p as u64, n as u64, 0, 0, 0]) != 0 {
                plat::violation("undefined", "an output depends on uninitialised memory", &plat::current_script());
            }
        }
    }
    /// After each case: has memcheck complained?
    pub fn after() {
        unsafe {
            static mut SEEN: u64 = 0;
            let n = request(&[0x1201, 0, 0, 0, 0, 0]);
            if n > SEEN {
                SEEN = n;
                plat::violation("memcheck", &("memcheck errors: ".to_string() + &n.to_string()), &plat::current_script());
            }
        }
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux", not(miri))))]
mod vg {
    pub fn present() -> bool {
        false
    }
    pub unsafe fn noaccess(_: *const u8, _: usize) {}
    pub unsafe fn undefined(_: *const u8, _: usize) {}
    pub unsafe fn defined(_: *const u8, _: usize) {}
    pub fn must_be_defined(_: *const u8, _: usize) {}
    pub fn after() {}
}
