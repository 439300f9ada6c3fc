//! Two and three threads inside the library at the same time (C15), on the real code.
//!
//! `preempt`: every single preemption. At each point of a program's library calls the process is
//! forked, and in the fork another thread runs a second program from start to end before the
//! first goes on. With points=all the program runs under the CPU's trap flag and every
//! instruction is a point: nothing is assumed about what could be shared. With points=shared all
//! writable memory except the stacks and the input is unreadable while the library runs, and
//! every access to it is a point (what lies between two of them touches nothing of others').
//!
//! `races`: all interleavings of such accesses. Each is granted by a scheduler that runs one
//! thread at a time. Accesses that can conflict are the scheduling points; the schedules over
//! them are enumerated depth first, up to a preemption bound.
//!
//! Every execution happens in a process forked from one that never called the library, so
//! first-use initialisation is part of what is explored. What a program observes is compared with
//! what it observes alone.
use crate::backends::Any;
use crate::ctx::*;
use crate::data;
use crate::plat::{self, lib};
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use core::cell::Cell;
use core::ffi::c_void;
use core::hash::{BuildHasher, Hasher};
use core::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use highway::{HighwayBuildHasher, HighwayHash, Key};
use std::collections::{BTreeMap, BTreeSet};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn pause() -> i32;
    fn gettid() -> i32;
    fn open(p: *const core::ffi::c_char, f: i32, ...) -> i32;
    fn read(fd: i32, p: *mut c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn signal(s: i32, h: usize) -> usize;
    fn sigaction(s: i32, a: *const Act, o: *mut Act) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut u8;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    static _end: u8;
}
#[repr(C)]
struct Act {
    handler: usize,
    mask: [u8; 128],
    flags: i32,
    restorer: usize,
}
fn handle(sig: i32, f: usize) {
    let a = Act { handler: f, mask: [0; 128], flags: 4 | 0x4000_0000, restorer: 0 }; // SA_SIGINFO | SA_NODEFER
    unsafe { sigaction(sig, &a, core::ptr::null_mut()) };
}
/// A saved register in the ucontext a handler receives.
unsafe fn reg(uc: *mut u8, i: usize) -> *mut u64 {
    uc.add(40 + 8 * i) as *mut u64
}
const RIP: usize = 16;
const EFL: usize = 17;
const ERR: usize = 19;
const TF: u64 = 0x100;

// ---- programs --------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
struct Prog {
    b: u8,
    kind: u8,
}
const NAMES: [&str; 11] = [
    "new+append+finish+hash64",
    "restore+append+checkpoint+hash128",
    "default+one-shot hash256",
    "shared builder: build+write+finish+clone",
    "explicit constructor+append+hash256",
    "shared hasher: finish, checkpoint, clone",
    "debug",
    "long append",
    "two instances in turn",
    "own builder: two hashers",
    "long append to an empty buffer",
];
fn describe(p: Prog) -> String {
    format!("{}: {}", crate::backends::name(p.b), NAMES[p.kind as usize])
}

/// Objects several threads use through shared references.
struct Shared {
    builder: HighwayBuildHasher,
    hasher: [Option<Any>; 4],
}

fn ck(who: usize) -> [u8; 164] {
    let mut c = [0u8; 164];
    for (i, x) in c.iter_mut().enumerate() {
        *x = (i * 29 + who * 101 + 7) as u8;
    }
    c[160..].copy_from_slice(&[9 + who as u8, 0, 0, 0]);
    for x in &mut c[128 + 9 + who..160] {
        *x = 0;
    }
    c
}

const INPUT: usize = 120_000;
const LONG: [usize; 3] = [70_001, 66_000, 98_432];
static mut INPUTS: *const u8 = core::ptr::null();
fn input(who: usize) -> &'static [u8] {
    unsafe { core::slice::from_raw_parts(INPUTS.add(who * INPUT), INPUT) }
}
unsafe fn make_inputs() {
    let m: *mut u8 = mmap(core::ptr::null_mut(), 3 * INPUT, 3, 0x22, -1, 0);
    for who in 0..3 {
        let d = data::slice([0, 5, 4][who], 3 * who, 3 * who + INPUT);
        core::ptr::copy_nonoverlapping(d.as_ptr(), m.add(who * INPUT), INPUT);
    }
    INPUTS = m;
}

/// Writable memory the library could share: not stacks, not the input, not thread-local.
unsafe fn sharable(sh: usize, keep: &[usize]) -> Ranges {
    let here = &keep as *const _ as usize;
    let tls: usize;
    core::arch::asm!("mov {}, fs:0", out(reg) tls);
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut r: Ranges = [(0, 0); 24];
    let mut n = 0;
    for l in maps.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if !w[1].starts_with("rw") || w.last().unwrap().starts_with("[stack") {
            continue;
        }
        let (a, e) = w[0].split_once('-').unwrap();
        let a = usize::from_str_radix(a, 16).unwrap();
        let e = usize::from_str_radix(e, 16).unwrap();
        let has = |x: usize| a <= x && x < e;
        // static memory of the program, the heap, the shared objects; the C library's own
        // statics are not the library's, and mappings made before it ran are the explorer's
        let named = w.len() >= 6;
        let bss = n > 0 && r[n - 1].0 + r[n - 1].1 == a;
        if !(named && !w[5].contains(".so") || has(sh) || bss) {
            continue;
        }
        if has(here) || has(tls) || has(INPUTS as usize) || keep.iter().any(|k| has(*k)) {
            continue;
        }
        if bss {
            r[n - 1].1 += e - a;
        } else if n < 24 {
            r[n] = (a, e - a);
            n += 1;
        }
    }
    r
}
type Ranges = [(usize, usize); 24];

fn program(p: Prog, who: usize, sh: &Shared) -> u64 {
    let key = [who as u64 + 1, !(who as u64), 0x0123_4567_89ab_cdef << who, 77];
    let d = input(who);
    let mut o = 1u64;
    match p.kind {
        0 => {
            let mut h = Any::new(p.b, key);
            h.append(&d[..5]);
            h.append(&d[5..72]);
            o = fnv(o, h.finish());
            o = fnv(o, h.fin64());
        }
        1 => {
            let mut h = Any::restore(p.b, &ck(who));
            h.append(&d[..40]);
            o = fnv_bytes(o, &h.checkpoint());
            for x in h.fin128() {
                o = fnv(o, x);
            }
        }
        2 => {
            let h = Any::default(p.b);
            for x in h.hash256(&d[..33]) {
                o = fnv(o, x);
            }
        }
        3 => {
            let mut h = lib(|| sh.builder.build_hasher());
            lib(|| h.write(&d[..37]));
            o = fnv(o, lib(|| h.finish()));
            let c = lib(|| h.clone());
            lib(|| h.write(&d[37..41]));
            o = fnv(o, lib(|| HighwayHash::finalize64(c)));
            o = fnv(o, lib(|| HighwayHash::finalize64(h)));
        }
        4 => {
            if p.b == 2 {
                let h = lib(|| highway::SseHash::new(Key(key)));
                o = fnv(o, h.is_some() as u64);
                if let Some(mut h) = h {
                    lib(|| h.append(&d[..50]));
                    for x in lib(|| h.finalize256()) {
                        o = fnv(o, x);
                    }
                }
            } else {
                let h = lib(|| highway::AvxHash::new(Key(key)));
                o = fnv(o, h.is_some() as u64);
                if let Some(mut h) = h {
                    lib(|| h.append(&d[..50]));
                    for x in lib(|| h.finalize256()) {
                        o = fnv(o, x);
                    }
                }
            }
        }
        5 => {
            let s = sh.hasher[p.b as usize].as_ref().unwrap();
            o = fnv(o, s.finish());
            let mut c = s.clone();
            c.append(&d[..40]);
            o = fnv_bytes(o, &s.checkpoint());
            o = fnv(o, c.fin64());
        }
        6 => {
            let mut h = Any::new(p.b, key);
            h.append(&d[..39]);
            h.debug1();
            o = fnv(o, h.fin64());
        }
        7 => {
            let mut h = Any::new(p.b, key);
            h.append(&d[..10]);
            h.append(&d[10..100_011]);
            for x in h.fin256() {
                o = fnv(o, x);
            }
        }
        9 => {
            let bh = lib(|| HighwayBuildHasher::new(Key(key)));
            let mut h = lib(|| bh.build_hasher());
            lib(|| h.write(&d[..3]));
            let g = lib(|| bh.build_hasher());
            o = fnv(o, lib(|| h.finish()));
            o = fnv(o, lib(|| HighwayHash::finalize64(g)));
            let z = lib(|| HighwayBuildHasher::default().build_hasher());
            o = fnv(o, lib(|| z.finish()));
        }
        10 => {
            let mut h = Any::new(p.b, key);
            h.append(&d[..LONG[who]]);
            o = fnv(o, h.finish());
            for x in h.fin128() {
                o = fnv(o, x);
            }
        }
        _ => {
            let mut h = Any::new(p.b, key);
            let mut g = Any::new(p.b, [key[1], key[0], 5, who as u64]);
            h.append(&d[..20]);
            g.append(&d[7..40]);
            h.hwrite(&d[20..55]);
            o = fnv(o, g.finish());
            let c = g.checkpoint();
            o = fnv_bytes(o, &c);
            o = fnv(o, h.fin64());
            let r = Any::restore(p.b, &c);
            o = fnv(o, r.fin64());
            for x in g.fin128() {
                o = fnv(o, x);
            }
        }
    }
    o
}

/// Shared objects in pages of their own; the warm ones need library calls to make.
unsafe fn shared(warm: bool) -> *const Shared {
    let n = 1 << 14;
    let p = mmap(core::ptr::null_mut(), n, 3, 0x22, -1, 0).cast();
    assert!(core::mem::size_of::<Shared>() <= n);
    let mut s = Shared { builder: HighwayBuildHasher::new(Key([11, 12, 13, 14])), hasher: [None, None, None, None] };
    if warm {
        for b in crate::backends::available() {
            let mut h = Any::new(b, [3, 1, 4, 1]);
            h.append(data::slice(2, 0, 53));
            s.hasher[b as usize] = Some(h);
        }
    }
    core::ptr::write(p, s);
    p
}

// ---- what the processes tell each other ------------------------------------------------

const MAXD: usize = 6000;
const MAXA: usize = 1 << 15;
#[repr(C)]
struct Ctl {
    turn: AtomicU32,
    alive: AtomicU32,
    progress: AtomicU64,
    n: AtomicU32,
    prefix_len: u32,
    run: AtomicU32,
    forced: AtomicU32,
    prefix: [u8; MAXD],
    /// enabled | chosen << 3 | current << 5
    dec: [u8; MAXD],
    obs: [u64; 3],
    done: [AtomicU32; 3],
    tid: [AtomicU32; 3],
    /// access log: address/16 << 4 | thread << 1 | write
    acc: [u64; MAXA],
    nacc: AtomicUsize,
    nconf: u32,
    conf: [u64; 512],
    // preempt
    points: u64,
    blocked: u64,
    bad: AtomicU32,
    bad_at: u64,
    bad_rip: u64,
    text: [u8; 64],
}
unsafe fn control() -> *mut Ctl {
    mmap(core::ptr::null_mut(), core::mem::size_of::<Ctl>() + 4096, 3, 0x21, -1, 0).cast()
}

std::thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
    static CTL: Cell<*mut Ctl> = const { Cell::new(core::ptr::null_mut()) };
    static RANGE: Cell<Ranges> = const { Cell::new([(0, 0); 24]) };
    static REGION: Cell<bool> = const { Cell::new(false) };
}

/// Run f in a forked child; its exit status.
unsafe fn child(f: impl FnOnce() -> i32) -> i32 {
    let p = fork();
    assert!(p >= 0);
    if p == 0 {
        for s in [4, 7, 8, 11, 5, 14] {
            signal(s, 0);
        }
        alarm(60);
        std::panic::set_hook(std::boxed::Box::new(|_| _exit(78)));
        let r = f();
        _exit(r);
    }
    let mut st = 0;
    waitpid(p, &mut st, 0);
    st
}

struct Base {
    /// what each program observes alone, as thread 0, 1, 2
    obs: [u64; 3],
}
/// Alone, each in its own process. None: it does not complete even then.
unsafe fn baseline(ctl: *mut Ctl, p: Prog, warm: bool) -> Option<Base> {
    let mut b = Base { obs: [0; 3] };
    for who in 0..3 {
        let st = child(|| {
            let sh = shared(warm);
            (*ctl).obs[who] = program(p, who, &*sh);
            0
        });
        if st != 0 {
            return None;
        }
        b.obs[who] = (*ctl).obs[who];
    }
    Some(b)
}

fn programs(cx: &Ctx, avail: &[u8], big: bool) -> Vec<(Prog, bool)> {
    let mut v = Vec::new();
    for b in avail {
        if !cx.p.get("backends").is_none_or(|l| l.split(',').any(|n| n == crate::backends::name(*b))) {
            continue;
        }
        for kind in 0..11u8 {
            let on = match kind {
                3 => *b == 1,
                4 => *b == 2 || *b == 3,
                6 => big || cx.scale >= 3,
                7 | 10 => big,
                9 => *b == 1,
                8 => big || cx.scale >= 2,
                _ => true,
            };
            if on {
                v.push((Prog { b: *b, kind }, kind == 5));
            }
        }
    }
    v
}

/// Which backends there are, without this process calling the library.
unsafe fn avail(ctl: *mut Ctl) -> Vec<u8> {
    let st = child(|| {
        let mut m = 0;
        for b in crate::backends::available() {
            m |= 1 << b;
        }
        (*ctl).obs[0] = m;
        0
    });
    assert!(st == 0);
    let m = (*ctl).obs[0];
    (0..6).filter(|b| m >> b & 1 == 1).collect()
}

// ---- one preemption at every instruction -----------------------------------------------

struct Stepper {
    ctl: *mut Ctl,
    sh: *const Shared,
    a: Prog,
    b: Prog,
    want: [u64; 2],
    index: u64,
    from: u64,
    every: u64,
    only: Option<u64>,
    forked: bool,
}
static mut ST: Option<Stepper> = None;

fn tf_on() {
    unsafe { core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
}
fn tf_off() {
    unsafe { core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
}

extern "C" fn on_step(_: i32, _: *mut u8, uc: *mut u8) {
    unsafe {
        point(uc);
    }
}
/// The same at accesses to memory that could be shared.
extern "C" fn on_touch(_: i32, info: *mut u8, uc: *mut u8) {
    unsafe {
        let addr = granted(info, uc);
        if !own(addr) && point(uc) {
            return;
        }
        *reg(uc, EFL) |= TF;
    }
}
/// In the process that goes on with the other thread's run: true.
unsafe fn point(uc: *mut u8) -> bool {
    let s = (*(&raw mut ST)).as_mut().unwrap();
    let i = s.index;
    s.index += 1;
    let mine = match s.only {
        Some(o) => i == o,
        None => i % s.every == s.from,
    };
    if !mine {
        return false;
    }
    (*s.ctl).points += 1;
    let p = fork();
    if p == 0 {
        // from here: thread 1 runs its whole program, then this one goes on
        s.forked = true;
        signal(14, 0);
        alarm(20);
        if !uc.is_null() {
            *reg(uc, EFL) &= !TF;
            (*s.ctl).bad_rip = *reg(uc, RIP);
        }
        *(&raw mut plat::STEP) = None;
        let (ctl, sh, b) = (s.ctl as usize, s.sh as usize, s.b);
        (*s.ctl).done[1].store(0, SeqCst);
        std::thread::spawn(move || {
            let ctl = ctl as *mut Ctl;
            (*ctl).obs[1] = program(b, 1, &*(sh as *const Shared));
            (*ctl).done[1].store(1, SeqCst);
        });
        wait_done(s.ctl, 1, 40);
        return true;
    }
    let mut st = 0;
    waitpid(p, &mut st, 0);
    match st {
        0 => {}
        0x0300 | 14 => (*s.ctl).blocked += 1,
        st => {
            (*s.ctl).bad_at = i;
            (*s.ctl).bad.store(if st == 0x0100 { 1 } else { st as u32 | 0x10000 }, SeqCst);
            _exit(1);
        }
    }
    false
}
/// Wait at most ms milliseconds.
unsafe fn wait_done(ctl: *mut Ctl, t: usize, ms: u64) -> bool {
    let t0 = std::time::Instant::now();
    let mut n = 0u32;
    while (*ctl).done[t].load(SeqCst) == 0 {
        n += 1;
        if n > 200 {
            std::thread::yield_now();
            if t0.elapsed().as_millis() as u64 > ms {
                return false;
            }
        }
    }
    true
}

unsafe fn steps(ctl: *mut Ctl, a: (Prog, bool), b: Prog, want: [u64; 2], from: u64, every: u64, only: Option<u64>, all: bool) -> i32 {
    (*ctl).points = 0;
    (*ctl).bad.store(0, SeqCst);
    child(|| {
        alarm(0);
        let sh = shared(a.1 || b.kind == 5);
        ST = Some(Stepper { ctl, sh, a: a.0, b, want, index: 0, from, every, only, forked: false });
        if all {
            handle(5, on_step as *const () as usize);
            plat::STEP = Some((tf_on, tf_off));
        } else {
            RANGE.set(sharable(sh as usize, &[ctl as usize]));
            handle(11, on_touch as *const () as usize);
            handle(5, on_single as *const () as usize);
            plat::STEP = Some((enter, leave));
        }
        let o = program(a.0, 0, &*sh);
        let s = (*(&raw mut ST)).as_mut().unwrap();
        if s.forked {
            if !wait_done(ctl, 1, 3000) {
                return 3;
            }
            if o != s.want[0] {
                (*ctl).obs[2] = 0;
                return 1;
            }
            if (*ctl).obs[1] != s.want[1] {
                (*ctl).obs[2] = 1;
                return 1;
            }
            return 0;
        }
        let _ = s.a;
        0
    })
}

pub fn preempt(cx: &mut Ctx) {
    unsafe {
        let ctl = control();
        make_inputs();
        let av = avail(ctl);
        let ps = programs(cx, &av, cx.p.get("points") != Some("all"));
        let base: Vec<Option<Base>> = ps.iter().map(|p| baseline(ctl, p.0, p.1)).collect();
        cx.backends = av;
        let all = cx.p.get("points") == Some("all");
        let only_pair = cx.p.get("pair").map(|x| x.parse::<usize>().unwrap());
        let only = cx.p.get("at").map(|x| x.parse::<u64>().unwrap());
        // a pair's points are split, not the pairs: every process does a share of each
        let (from, every) = if only.is_some() { (0, 1) } else { (cx.shard, cx.nshards) };
        for (i, a) in ps.iter().enumerate() {
            for (j, b) in ps.iter().enumerate() {
                let pair = i * ps.len() + j;
                if only_pair.is_some_and(|p| p != pair) {
                    continue;
                }
                // every instruction is a lot of points: fewer pairs in smaller runs
                if all && cx.scale < 3 && (a.0.b != b.0.b || b.0.kind != 0 || (cx.scale < 2 && a.0.kind > 1)) && only_pair.is_none() {
                    continue;
                }
                let (Some(x), Some(y)) = (&base[i], &base[j]) else {
                    cx.notes.push(format!("does not complete alone: {}", describe(a.0)));
                    cx.capped = true;
                    continue;
                };
                (*ctl).blocked = 0;
                steps(ctl, *a, b.0, [x.obs[0], y.obs[1]], from, every, only, all);
                let bad = (*ctl).bad.load(SeqCst);
                if bad != 0 {
                    let what = if bad == 1 {
                        format!("results of thread {} change", (*ctl).obs[2])
                    } else {
                        format!("a thread dies (status {:x})", bad & 0xffff)
                    };
                    plat::violation(
                        "preemption",
                        &format!("{} when another thread runs in the middle of a library call", what),
                        &format!(
                            "# no script: thread 0 runs '{}' and is preempted at step {} (rip {:x}, _end {:x}) by thread 1 running '{}'\n# params: points={} pair={} at={}\n",
                            describe(a.0), (*ctl).bad_at, (*ctl).bad_rip, &raw const _end as usize, describe(b.0), if all { "all" } else { "shared" }, pair, (*ctl).bad_at
                        ),
                    );
                }
                cx.evals += (*ctl).points;
                plat::CALLS += (*ctl).points * 8;
                for k in 0..(*ctl).points {
                    cx.states.add(fnv(fnv(fnv(7, pair as u64), k), from));
                }
                cx.outcomes.add(fnv(x.obs[0], y.obs[1]));
                cx.digest = cx.digest.wrapping_add(fnv(x.obs[0], y.obs[1]));
                if (*ctl).blocked > 0 {
                    cx.notes.push(format!("{} preemptions of {} by {} did not complete", (*ctl).blocked, describe(a.0), describe(b.0)));
                }
                if cx.samples.len() < 3 {
                    cx.samples.push(format!("'{}' preempted at {} of its steps by '{}'", describe(a.0), (*ctl).points, describe(b.0)));
                }
            }
        }
    }
}

// ---- all interleavings of shared accesses ----------------------------------------------

unsafe fn protect(on: bool) {
    let p = if on { 0 } else { 3 };
    for (a, n) in RANGE.get() {
        if n > 0 {
            mprotect(a as *mut c_void, n, p);
        }
    }
}
fn enter() {
    unsafe {
        // the start of every library call is a point too
        let s = (*(&raw mut ST)).as_mut();
        if s.is_some_and(|s| !s.forked) && point(core::ptr::null_mut()) {
            return;
        }
    }
    REGION.set(true);
    unsafe { protect(true) }
}
fn leave() {
    REGION.set(false);
    unsafe { protect(false) }
}

/// Does the kernel say this thread sleeps? (No allocation: other threads may be inside a call.)
unsafe fn asleep(tid: u32) -> bool {
    let mut name = *b"/proc/self/task/0000000000/stat\0";
    let (mut x, mut i) = (tid, 25);
    while i >= 16 {
        name[i] = b'0' + (x % 10) as u8;
        x /= 10;
        i -= 1;
    }
    // no leading zeros in that file system
    let z = name[16..26].iter().take_while(|c| **c == b'0').count();
    let mut path = [0u8; 40];
    path[..16].copy_from_slice(&name[..16]);
    let rest = &name[16 + z..];
    path[16..16 + rest.len()].copy_from_slice(rest);
    let fd = open(path.as_ptr().cast(), 0);
    if fd < 0 {
        return false;
    }
    let mut b = [0u8; 200];
    let n = read(fd, b.as_mut_ptr().cast(), 200);
    close(fd);
    // "tid (comm) S ..."
    let n = n.max(0) as usize;
    match b[..n].iter().rposition(|c| *c == b')') {
        Some(p) if p + 2 < n => b[p + 2] == b'S',
        _ => false,
    }
}

unsafe fn wait_turn(c: *mut Ctl, me: usize) {
    let mut n = 0u64;
    let mut last = (*c).progress.load(SeqCst);
    let mut t0 = std::time::Instant::now();
    while (*c).turn.load(SeqCst) != me as u32 {
        n += 1;
        if n < 100 {
            core::hint::spin_loop();
            continue;
        }
        std::thread::yield_now();
        let p = (*c).progress.load(SeqCst);
        if p != last {
            last = p;
            t0 = std::time::Instant::now();
        } else if t0.elapsed().as_millis() > 30 + 10 * me as u128 {
            // is the running thread blocked on something this one holds?
            let t = (*c).turn.load(SeqCst);
            if t != me as u32 && t < 3 && asleep((*c).tid[t as usize].load(SeqCst)) && (*c).turn.compare_exchange(t, me as u32, SeqCst, SeqCst).is_ok() {
                (*c).forced.fetch_add(1, SeqCst);
            }
            t0 = std::time::Instant::now();
        }
    }
    (*c).progress.fetch_add(1, SeqCst);
}

/// A scheduling decision of thread `me` (3: before the first). Returns when `me` may go on.
unsafe fn decide(c: *mut Ctl, me: usize) {
    let en = (*c).alive.load(SeqCst) as u8;
    if en == 0 {
        return;
    }
    let k = (*c).n.load(SeqCst) as usize;
    let on = me < 3 && en >> me & 1 == 1;
    let mut t = if on { me } else { en.trailing_zeros() as usize };
    if k < MAXD {
        if k < (*c).prefix_len as usize {
            let w = (*c).prefix[k] as usize;
            if en >> w & 1 == 1 {
                t = w;
            }
        } else if on && (*c).run.load(SeqCst) > 300 {
            // a thread waiting in a loop for another one
            t = (1..3).map(|d| (me + d) % 3).find(|t| en >> t & 1 == 1).unwrap_or(me);
        }
        (*c).dec[k] = en | (t as u8) << 3 | (me as u8) << 5;
        (*c).n.store(k as u32 + 1, SeqCst);
    }
    if t == me {
        (*c).run.fetch_add(1, SeqCst);
    } else {
        (*c).run.store(0, SeqCst);
    }
    (*c).progress.fetch_add(1, SeqCst);
    (*c).turn.store(t as u32, SeqCst);
    if on && t != me {
        wait_turn(c, me);
    }
}

/// Open the memory after a fault; anything that is not such a fault is a crash.
unsafe fn granted(info: *mut u8, uc: *mut u8) -> usize {
    let addr = *(info.add(16) as *const usize);
    let r = RANGE.get();
    let ours = r.iter().any(|(a, n)| addr.wrapping_sub(*a) < *n) && REGION.get();
    protect(false);
    if !ours {
        plat::log(&format!("HWMC-NOTE fault at {:x} rip {:x} in a call: {}", addr, *reg(uc, RIP), REGION.get()));
        _exit(79);
    }
    addr
}
/// One of the harness' own flags?
unsafe fn own(addr: usize) -> bool {
    macro_rules! any {
        ($($x:ident),*) => { false $(|| addr.wrapping_sub(&raw const plat::$x as usize) < core::mem::size_of_val(&*(&raw const plat::$x)))* };
    }
    any!(IN_LIB, ALLOCS, CALLS, CURRENT, STEP)
}
extern "C" fn on_fault(_: i32, info: *mut u8, uc: *mut u8) {
    unsafe {
        let addr = granted(info, uc);
        let c = CTL.get();
        let me = ME.get();
        if !own(addr) {
            let w = *reg(uc, ERR) >> 1 & 1;
            let line = addr as u64 >> 4;
            let k = (*c).nacc.load(SeqCst);
            if k < MAXA {
                (*c).acc[k] = line << 4 | (me as u64) << 1 | w;
                (*c).nacc.store(k + 1, SeqCst);
            }
            let conf: &[u64] = core::slice::from_raw_parts(&raw const (*c).conf as *const u64, (*c).nconf as usize);
            if conf.contains(&line) {
                decide(c, me);
            }
        }
        *reg(uc, EFL) |= TF;
    }
}
extern "C" fn on_single(_: i32, _: *mut u8, uc: *mut u8) {
    unsafe {
        *reg(uc, EFL) &= !TF;
        if REGION.get() {
            protect(true);
        }
    }
}

struct Outcome {
    status: i32,
    dec: Vec<u8>,
    acc: Vec<u64>,
    obs: [u64; 3],
}

unsafe fn scheduled(ctl: *mut Ctl, ps: &[(Prog, bool)], prefix: &[u8], conf: &BTreeSet<u64>) -> Outcome {
    let c = &mut *ctl;
    c.n.store(0, SeqCst);
    c.nacc.store(0, SeqCst);
    c.run.store(0, SeqCst);
    c.forced.store(0, SeqCst);
    c.progress.store(0, SeqCst);
    c.prefix_len = prefix.len() as u32;
    c.prefix[..prefix.len()].copy_from_slice(prefix);
    c.nconf = conf.len().min(512) as u32;
    for (i, x) in conf.iter().take(512).enumerate() {
        c.conf[i] = *x;
    }
    c.alive.store((1 << ps.len()) - 1, SeqCst);
    c.turn.store(3, SeqCst);
    c.obs = [0; 3];
    for d in &c.done {
        d.store(0, SeqCst);
    }
    let status = child(|| {
        alarm(25);
        let sh = shared(ps.iter().any(|p| p.1)) as usize;
        handle(11, on_fault as *const () as usize);
        handle(5, on_single as *const () as usize);
        // before there are other threads: their stacks stay out of it
        let ranges = sharable(sh as usize, &[ctl as usize]);
        plat::STEP = Some((enter, leave));
        let mut ts = Vec::new();
        let c = ctl as usize;
        let ready: &'static AtomicU32 = std::boxed::Box::leak(std::boxed::Box::new(AtomicU32::new(0)));
        for (i, p) in ps.iter().enumerate() {
            let p = p.0;
            ts.push(std::thread::spawn(move || {
                let c = c as *mut Ctl;
                ME.set(i);
                CTL.set(c);
                RANGE.set(ranges);
                (*c).tid[i].store(gettid() as u32, SeqCst);
                ready.fetch_add(1, SeqCst);
                wait_turn(c, i);
                let o = program(p, i, &*(sh as *const Shared));
                (*c).obs[i] = o;
                (*c).alive.fetch_and(!(1 << i), SeqCst);
                (*c).done[i].store(1, SeqCst);
                decide(c, i);
                // the end of a thread is not part of the exploration
                loop {
                    pause();
                }
            }));
        }
        while ready.load(SeqCst) < ps.len() as u32 {
            std::thread::yield_now();
        }
        decide(ctl, 3);
        for (i, _) in ps.iter().enumerate() {
            if !wait_done(ctl, i, 20_000) {
                return 3;
            }
        }
        0
    });
    Outcome {
        status,
        dec: c.dec[..c.n.load(SeqCst) as usize].to_vec(),
        acc: c.acc[..c.nacc.load(SeqCst)].to_vec(),
        obs: c.obs,
    }
}

pub fn races(cx: &mut Ctx) {
    unsafe {
        let ctl = control();
        make_inputs();
        let av = avail(ctl);
        let ps = programs(cx, &av, true);
        let base: Vec<Option<Base>> = ps.iter().map(|p| baseline(ctl, p.0, p.1)).collect();
        cx.backends = av;
        let bound = cx.p.num("bound", [1, 2, 3, 5][cx.scale.min(3) as usize]) as usize;
        let cap = cx.p.num("cap", [200, 1000, 4000, 60_000][cx.scale.min(3) as usize]);
        let only = cx.p.get("set");
        let fixed: Option<Vec<u8>> = cx.p.get("schedule").map(|s| s.bytes().map(|b| b - b'0').collect());
        let mut sets: Vec<Vec<usize>> = Vec::new();
        for i in 0..ps.len() {
            for j in i..ps.len() {
                sets.push(std::vec![i, j]);
                if cx.scale >= 2 && (cx.scale >= 3 || i == j) {
                    sets.push(std::vec![i, j, (i + 1) % ps.len()]);
                }
            }
        }
        let (mut most, mut lines, mut conflicts, mut forced) = (0usize, BTreeSet::new(), BTreeSet::new(), 0u64);
        for set in sets {
            let id = set.iter().map(|x| format!("{}", x)).collect::<Vec<_>>().join(",");
            if only.is_some_and(|o| o != id) {
                continue;
            }
            if !cx.take() && only.is_none() {
                continue;
            }
            if set.iter().any(|i| base[*i].is_none()) {
                cx.capped = true;
                continue;
            }
            let pr: Vec<(Prog, bool)> = set.iter().map(|i| ps[*i]).collect();
            let want: Vec<u64> = set.iter().enumerate().map(|(t, i)| base[*i].as_ref().unwrap().obs[t]).collect();
            let mut seen: BTreeMap<u64, (u8, u8)> = BTreeMap::new();
            let mut conf: BTreeSet<u64> = BTreeSet::new();
            let mut runs = 0u64;
            let mut work: Vec<Vec<u8>> = std::vec![fixed.clone().unwrap_or_default()];
            let mut restarts = 0;
            while let Some(prefix) = work.pop() {
                let r = scheduled(ctl, &pr, &prefix, &conf);
                runs += 1;
                cx.evals += 1;
                forced += (*ctl).forced.load(SeqCst) as u64;
                plat::CALLS += r.acc.len() as u64 + 8;
                let chosen: String = r.dec.iter().map(|d| (b'0' + (d >> 3 & 3)) as char).collect();
                let report = |kind: &str, what: &str| {
                    let mut t = String::new();
                    for (i, p) in pr.iter().enumerate() {
                        t.push_str(&format!("# thread {} runs '{}'\n", i, describe(p.0)));
                    }
                    t.push_str(&format!("# no script: threads chosen at the conflicting accesses: {}\n# params: set={} schedule={}\n", chosen, id, chosen));
                    plat::violation(kind, what, &t)
                };
                match r.status {
                    0 => {
                        for (t, w) in want.iter().enumerate() {
                            if r.obs[t] != *w {
                                report("schedule", &format!("results of thread {} depend on the schedule", t));
                            }
                        }
                    }
                    0x0300 | 14 => {
                        cx.capped = true;
                        cx.notes.push(format!("set {} did not complete", id));
                        break;
                    }
                    st => report("schedule", &format!("a thread dies (status {:x})", st)),
                }
                if fixed.is_some() {
                    break;
                }
                let mut h = 1;
                for d in &r.dec {
                    h = fnv(h, *d as u64 + 1);
                }
                cx.states.add(fnv(h, fnv_bytes(2, id.as_bytes())));
                // accesses and conflicts seen so far
                let before = conf.len();
                for a in &r.acc {
                    let e = seen.entry(a >> 4).or_default();
                    e.0 |= 1 << (a >> 1 & 3);
                    if a & 1 == 1 {
                        e.1 |= 1 << (a >> 1 & 3);
                    }
                }
                for (l, (who, wr)) in &seen {
                    lines.insert(*l);
                    if who.count_ones() > 1 && *wr != 0 {
                        conf.insert(*l);
                    }
                }
                if r.acc.len() >= MAXA || conf.len() > 512 {
                    cx.capped = true;
                }
                conflicts.extend(conf.iter().copied());
                if conf.len() != before {
                    // more scheduling points than this run had: start over
                    restarts += 1;
                    if restarts < 40 {
                        work = std::vec![Vec::new()];
                        continue;
                    }
                }
                most = most.max(r.dec.len());
                if runs > cap {
                    cx.capped = true;
                    break;
                }
                // alternatives after the prefix, within the preemption bound
                let mut pre = 0;
                for (k, d) in r.dec.iter().enumerate() {
                    let (en, ch, me) = (d & 7, (d >> 3 & 3) as usize, (d >> 5) as usize);
                    let on = me < 3 && en >> me & 1 == 1;
                    if k >= prefix.len() {
                        for t in 0..3usize {
                            if t == ch || en >> t & 1 == 0 || (on && t != me && pre >= bound) {
                                continue;
                            }
                            let mut p: Vec<u8> = r.dec[..k].iter().map(|d| d >> 3 & 3).collect();
                            p.push(t as u8);
                            work.push(p);
                        }
                    }
                    if on && ch != me {
                        pre += 1;
                    }
                }
            }
            for w in &want {
                cx.outcomes.add(*w);
                cx.digest = cx.digest.wrapping_add(fnv(*w, 5));
            }
            if cx.samples.len() < 3 {
                cx.samples.push(format!("{}: {} schedules", pr.iter().map(|p| describe(p.0)).collect::<Vec<_>>().join(" || "), runs));
            }
        }
        cx.notes.push(format!("preemption bound {}, at most {} decisions in a schedule, {} shared 16-byte lines accessed, {} conflicting, {} forced switches",
            bound, most, lines.len(), conflicts.len(), forced));
    }
}
