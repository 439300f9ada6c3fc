//! Very long streams, very many calls: counters of bytes past 2^31 and 2^32 and counters of
//! calls past 2^16 (2^32 in the deepest runs).
use crate::backends::{self, Any};
use crate::ctx::*;
use crate::hist::Oracle;
use crate::plat;
use crate::spec::Spec;
use std::format;
use std::string::String;
use std::vec::Vec;

const SEG: usize = 1 << 26;

/// `n` readable bytes: on Linux one 64 MiB file mapped over and over, so that a single
/// slice can be longer than memory.
#[cfg(all(target_os = "linux", not(miri)))]
fn big(n: usize) -> &'static [u8] {
    extern "C" {
        fn memfd_create(name: *const u8, flags: u32) -> i32;
        fn ftruncate(fd: i32, n: isize) -> i32;
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    }
    unsafe {
        let fd = memfd_create(c"hw".as_ptr().cast(), 0);
        assert!(fd >= 0 && ftruncate(fd, SEG as isize) == 0, "memfd");
        let segs = n.div_ceil(SEG);
        let base = mmap(core::ptr::null_mut(), segs * SEG, 0, 0x22 | 0x4000, -1, 0);
        assert!(base as isize != -1 && !base.is_null(), "mmap");
        for i in 0..segs {
            let p = mmap(base.add(i * SEG), SEG, 3, 0x11, fd, 0);
            assert!(p == base.add(i * SEG), "mmap segment");
        }
        fill(core::slice::from_raw_parts_mut(base, SEG));
        core::slice::from_raw_parts(base, n)
    }
}
#[cfg(not(all(target_os = "linux", not(miri))))]
fn big(n: usize) -> &'static [u8] {
    let mut v = std::vec![0u8; n.min(SEG)];
    fill(&mut v);
    std::vec::Vec::leak(v)
}
#[cfg(all(target_os = "linux", not(miri)))]
fn release(b: &'static [u8]) {
    extern "C" {
        fn munmap(a: *const u8, n: usize) -> i32;
    }
    if !b.is_empty() {
        let r = unsafe { munmap(b.as_ptr(), b.len().div_ceil(SEG) * SEG) };
        assert!(r == 0, "munmap");
    }
}
#[cfg(not(all(target_os = "linux", not(miri))))]
fn release(_: &'static [u8]) {}
fn fill(b: &mut [u8]) {
    let mut r = Rng(77);
    for c in b.chunks_mut(8) {
        let x = r.next().to_le_bytes();
        c.copy_from_slice(&x[..c.len()]);
    }
}

struct Cur {
    b: u8,
    what: String,
}
fn render(p: *const ()) -> String {
    let c = unsafe { &*(p as *const Cur) };
    format!("# no short history: {} on {}\n", c.what, backends::name(c.b))
}

/// (times, length): that many appends of that length, from the start of the buffer each time
/// unless they fit behind each other.
type Plan = Vec<(u64, u64)>;

fn feed_model(s: &mut Spec, d: &[u8], plan: &Plan) {
    let mut at = 0usize;
    for &(k, l) in plan {
        for _ in 0..k {
            if l == 0 {
                continue;
            }
            let mut left = l as usize;
            while left > 0 {
                if at == d.len() {
                    at = 0;
                }
                let n = left.min(d.len() - at);
                s.absorb(&d[at..at + n]);
                at += n;
                left -= n;
            }
        }
    }
}
/// How the bytes go in, and what else happens on the way.
#[derive(Clone, Copy)]
struct Style {
    /// 0 append, 1 Hasher::write, 2 io::Write::write, 3 io::Write::write_all
    via: u64,
    /// checkpoint and restore on the next backend, clone, or finish between the parts
    hop: bool,
    obs: bool,
}
const PLAIN: Style = Style { via: 0, hop: false, obs: false };
fn put(a: &mut Any, d: &[u8], via: u64) {
    match via {
        0 => a.append(d),
        1 => a.hwrite(d),
        #[cfg(feature = "hstd")]
        2 => {
            let r = a.iowrite(d);
            if r != Ok(d.len()) {
                plat::differs("io::Write::write of a very long slice", || format!("# {} bytes written, reported {:?}\n", d.len(), r));
            }
        }
        #[cfg(feature = "hstd")]
        3 => {
            if a.iowrite_all(d).is_err() {
                plat::differs("io::Write::write_all of a very long slice", || format!("# {} bytes: error\n", d.len()));
            }
        }
        _ => a.append(d),
    }
}
fn feed(a: &mut Any, d: &[u8], plan: &Plan, how: Style, nexts: &[u8]) {
    let mut at = 0usize;
    for (i, &(k, l)) in plan.iter().enumerate() {
        if how.hop && i > 0 {
            let c = a.checkpoint();
            *a = Any::restore(nexts[i % nexts.len()], &c);
        }
        if how.obs {
            let mut x = a.clone();
            x.append(&[1; 70]);
            a.finish();
            a.checkpoint();
            let y = a.clone();
            *a = y;
            x.fin64();
        }
        for _ in 0..k {
            let l = l as usize;
            if l == 0 {
                put(a, &[], how.via);
                continue;
            }
            let mut left = l;
            while left > 0 {
                if at == d.len() {
                    at = 0;
                }
                let n = left.min(d.len() - at);
                put(a, &d[at..at + n], how.via);
                at += n;
                left -= n;
            }
        }
    }
}
fn observe(a: Any) -> ([u8; 164], u64, [u64; 2], [u64; 4], u64) {
    let (x, y, mut z) = (a.clone(), a.clone(), a.clone());
    z.append(&[7; 41]);
    (a.checkpoint(), a.fin64(), x.fin128(), y.fin256(), z.fin64())
}

pub fn explore(cx: &mut Ctx) {
    let o = Oracle::of(cx, Oracle::Spec);
    let wide = core::mem::size_of::<usize>() == 8;
    let mut plans: Vec<Plan> = Vec::new();
    let g4 = 1u64 << 32;
    // bytes
    let bytes = cx.p.get("only").is_none();
    if wide && cx.p.get("only") == Some("packets") {
        // more than 2^32 packets
        plans.push(std::vec![(1, 5), (33, g4), (1, 40)]);
    }
    if wide && bytes {
        plans.push(std::vec![(1, g4 + 33)]);
        // an append whose low 32 bits fit the room left
        plans.push(std::vec![(1, 5), (1, g4 + 3), (1, 40)]);
        plans.push(std::vec![(1, 5), (1, g4 + 64), (1, 40)]);
        plans.push(std::vec![(1, g4 - 40), (1, 39), (3, 1), (1, 33)]);
        plans.push(std::vec![(1, 31), (1, g4), (1, 1)]);
        plans.push(std::vec![(1, 29), (1, (1 << 31) + 2), (1, 40)]);
        for n in [g4, g4 - 1, (1 << 31) + 5] {
            plans.push(std::vec![(1, n)]);
        }
    }
    // the longest slice a 32-bit target can have
    let long = (1u64 << 31) - 1;
    let one32 = !wide && cfg!(target_os = "linux");
    if one32 && bytes {
        plans.push(std::vec![(1, long)]);
        plans.push(std::vec![(1, 33), (1, 1 << 30), (1, (1 << 30) + 7), (1, 40)]);
        plans.push(std::vec![(1, 5), (3, long), (1, 40)]);
    }
    if bytes {
        plans.push(std::vec![(1, 9), (64, SEG as u64 + 1), (1, 40)]);
    }
    // calls
    let top = if cx.scale >= 3 { g4 + 3 } else { cx.p.num("calls", (1 << 24) + 3) };
    let calls = cx.p.get("only") != Some("packets");
    for l in [0u64, 1].into_iter().filter(|_| calls) {
        plans.push(std::vec![(1, 3), (top, l), (1, 40)]);
    }
    for l in [32u64, 33, 31].into_iter().filter(|_| calls) {
        plans.push(std::vec![(1, 3), ((1 << 16) + 3, l), (1, 40)]);
        plans.push(std::vec![(1, 3), (top.min((1 << 24) + 3), l), (1, 40)]);
    }
    let mut buf: &'static [u8] = &[];
    let key = crate::lattice::KEY1;
    let canon = cx.p.num("canon", 0) == 1;
    let style = Style { via: cx.p.num("via", 0), hop: cx.p.num("hop", 0) == 1, obs: cx.p.num("obs", 0) == 1 };
    plans.truncate(cx.p.num("plans", 99) as usize);
    for plan in &plans {
        for b in cx.backends.clone() {
            if !cx.take() {
                continue;
            }
            let total: u64 = plan.iter().map(|x| x.0 * x.1).sum();
            let one = plan.iter().map(|x| x.1).max().unwrap() as usize;
            let need = if wide {
                (one + 128).max(total.min(6 << 30) as usize)
            } else if one32 && one > SEG + 1 {
                long as usize
            } else {
                SEG
            };
            if buf.len() < need {
                // a 32-bit process has room for one
                release(buf);
                buf = big(need);
            }
            let cur = Cur { b, what: format!("appends (times, length) {:?} (via {}, hop {}, observe {}) at key {:x?}", plan, style.via, style.hop, style.obs, key) };
            unsafe { plat::CURRENT = Some((render, &cur as *const Cur as *const ())) };
            let mut a = Any::new(b, key);
            feed(&mut a, buf, plan, style, &cx.backends);
            let got = observe(a);
            let mut pend = (total % 32) as usize;
            let want = match o {
                // panics and the like are all that is looked for
                _ if cx.p.get("values") == Some("0") => got,
                Oracle::Spec => {
                    let mut s = Spec::new(key);
                    feed_model(&mut s, buf, plan);
                    pend = s.n;
                    let mut z = s;
                    z.absorb(&[7; 41]);
                    (s.ckpt(), s.out64(), s.out128(), s.out256(), z.out64())
                }
                _ => {
                    let mut r = Any::new(if o == Oracle::Portable { 0 } else { b }, key);
                    if o == Oracle::Portable {
                        feed(&mut r, buf, plan, PLAIN, &[0]);
                    } else if total <= buf.len() as u64 {
                        r.append(&buf[..total as usize]);
                    } else {
                        // no slice that long: the same bytes in unequal pieces
                        let mut at = 0;
                        let mut left = total;
                        while left > 0 {
                            let n = left.min((buf.len() - at) as u64).min(1 << 20) as usize;
                            r.append(&buf[at..at + n]);
                            at = (at + n) % buf.len();
                            left -= n as u64;
                        }
                    }
                    observe(r)
                }
            };
            if !ck_eq(&got.0, &want.0, pend) || canon && got.0 != want.0 || (got.1, got.2, got.3, got.4) != (want.1, want.2, want.3, want.4) {
                plat::differs("result of a very long history", || render(&cur as *const Cur as *const ()));
            }
            unsafe { plat::CURRENT = None };
            cx.evals += 1;
            cx.outcomes.add(got.1);
            cx.states.add(fnv_bytes(got.1, &got.0[..128]));
            cx.digest = cx.digest.wrapping_add(fnv(got.1, got.4));
            if cx.samples.len() < 2 {
                cx.samples.push(cur.what.clone());
            }
        }
    }
}
