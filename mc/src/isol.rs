//! Isolation (C15): a history over several hashers must give each of them what the same
//! operations give it alone. "Alone" is literal: the projection of the history on one hasher
//! runs in a process forked from one in which no library code ever ran.
use crate::ctx::*;
use crate::hist::{self, Exec, Op, Oracle};
use crate::plat;
use alloc::format;
use alloc::string::String;
use alloc::vec::Vec;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, p: *mut core::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn signal(s: i32, h: usize) -> usize;
}

struct Server {
    to: i32,
    from: i32,
    memo: HashMap<String, Option<Vec<u64>>>,
    asked: u64,
}
static mut SERVER: Option<Server> = None;

unsafe fn read_all(fd: i32, b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = read(fd, b.as_mut_ptr().add(at).cast(), b.len() - at);
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}
unsafe fn write_all(fd: i32, b: &[u8]) {
    let mut at = 0;
    while at < b.len() {
        let n = write(fd, b.as_ptr().add(at).cast(), b.len() - at);
        if n <= 0 {
            _exit(9);
        }
        at += n as usize;
    }
}

/// Start the process that runs projections. Call before anything of the library.
pub fn start() {
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        assert!(pipe(a.as_mut_ptr()) == 0 && pipe(b.as_mut_ptr()) == 0);
        let p = fork();
        assert!(p >= 0);
        if p == 0 {
            close(a[1]);
            close(b[0]);
            serve(a[0], b[1]);
        }
        close(a[0]);
        close(b[1]);
        SERVER = Some(Server { to: a[1], from: b[0], memo: HashMap::new(), asked: 0 });
    }
}

unsafe fn serve(rx: i32, tx: i32) -> ! {
    loop {
        let mut n = [0u8; 4];
        if !read_all(rx, &mut n) {
            _exit(0);
        }
        let mut t = std::vec![0u8; u32::from_le_bytes(n) as usize];
        if !read_all(rx, &mut t) {
            _exit(0);
        }
        let c = fork();
        if c == 0 {
            // a crash or hang here is not about isolation: answer nothing
            for s in [4, 5, 7, 8, 11, 14] {
                signal(s, 0);
            }
            alarm(30);
            std::panic::set_hook(std::boxed::Box::new(|_| _exit(8)));
            let t = String::from_utf8(t).unwrap();
            let ops: Vec<Op> = t.lines().filter_map(hist::parse).collect();
            let mut e = Exec::new(&ops, Oracle::Record, false);
            for i in 0..ops.len() {
                e.run(i);
            }
            let mut out = Vec::new();
            out.extend_from_slice(&(e.record.len() as u32 + 1).to_le_bytes());
            for r in &e.record {
                out.extend_from_slice(&r.1.to_le_bytes());
            }
            write_all(tx, &out);
            _exit(0);
        }
        let mut st = 0;
        waitpid(c, &mut st, 0);
        if st != 0 {
            write_all(tx, &0u32.to_le_bytes());
        }
    }
}

/// What these operations observe alone; None if they do not complete.
pub fn alone(ops: &[Op]) -> Option<Vec<u64>> {
    let s = unsafe { (*(&raw mut SERVER)).as_mut().expect("harness: no server") };
    let t = hist::render(ops);
    if let Some(v) = s.memo.get(&t) {
        return v.clone();
    }
    s.asked += 1;
    let v = unsafe {
        write_all(s.to, &(t.len() as u32).to_le_bytes());
        write_all(s.to, t.as_bytes());
        let mut n = [0u8; 4];
        assert!(read_all(s.from, &mut n), "harness: server gone");
        let n = u32::from_le_bytes(n) as usize;
        if n == 0 {
            None
        } else {
            let mut b = std::vec![0u8; 8 * (n - 1)];
            assert!(read_all(s.from, &mut b), "harness: server gone");
            Some(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect())
        }
    };
    if s.memo.len() > 400_000 {
        s.memo.clear();
    }
    s.memo.insert(t, v.clone());
    v
}
pub fn asked() -> u64 {
    unsafe { (*(&raw const SERVER)).as_ref().map_or(0, |s| s.asked) }
}

/// For every hasher: the operations that make it what it is, in order.
fn lines(ops: &[Op]) -> Vec<Vec<usize>> {
    use hist::Op::*;
    let mut cur: [Vec<usize>; hist::SLOTS] = core::default::Default::default();
    let mut out: Vec<Vec<usize>> = Vec::new();
    let end = |v: &mut Vec<usize>, out: &mut Vec<Vec<usize>>| {
        if v.iter().any(|i| matches!(ops[*i], Finish(_) | Ckpt(_) | CloneFin(_) | Fin(..) | Shot(..) | Check(_))) {
            out.push(std::mem::take(v));
        } else {
            v.clear();
        }
    };
    for (k, o) in ops.iter().enumerate() {
        match o {
            One(..) => out.push(std::vec![k]),
            New(i, ..) | Default(i, _) | Build(i, _) | BuildDefault(i, _) | Restore(i, ..) => {
                end(&mut cur[*i], &mut out);
                cur[*i].push(k);
            }
            Clone(a, b) | CloneFrom(a, b) => {
                end(&mut cur[*a], &mut out);
                cur[*a] = cur[*b].clone();
                cur[*a].push(k);
            }
            Move(a, b) => {
                end(&mut cur[*a], &mut out);
                cur[*a] = std::mem::take(&mut cur[*b]);
                cur[*a].push(k);
            }
            Drop(i) => end(&mut cur[*i], &mut out),
            Fin(i, _) | Shot(i, ..) | Check(i) => {
                cur[*i].push(k);
                end(&mut cur[*i], &mut out);
            }
            Pattern(i, _) | Feed(i, ..) | Finish(i) | Ckpt(i) | Debug(i) | DebugAt(i, _) | Flush(i) | Reclone(i)
            | CloneDrop(i) | CloneFin(i) | Hop(i, _) => cur[*i].push(k),
        }
    }
    for v in cur.iter_mut() {
        end(v, &mut out);
    }
    out
}

// ---- several threads, one operation at a time ------------------------------------------

const THREADS: usize = 3;
static TURN: AtomicU32 = AtomicU32::new(0);
static JOB: AtomicUsize = AtomicUsize::new(0);
static STARTED: AtomicU32 = AtomicU32::new(0);

fn spin(until: impl Fn() -> bool) {
    let mut n = 0u32;
    while !until() {
        n += 1;
        if n < 300 {
            core::hint::spin_loop();
        } else {
            std::thread::yield_now();
        }
    }
}

struct Job {
    e: *mut (),
    i: usize,
}
/// Run operation i of `e` on thread t (0 is this one).
fn run_on(t: usize, e: &mut Exec, i: usize) {
    if t == 0 {
        e.run(i);
        return;
    }
    while STARTED.load(Acquire) < THREADS as u32 - 1 {
        let me = STARTED.fetch_add(1, AcqRel) + 1;
        std::thread::spawn(move || loop {
            spin(|| TURN.load(Acquire) == me);
            let j = unsafe { &*(JOB.load(Acquire) as *const Job) };
            let e = unsafe { &mut *(j.e as *mut Exec) };
            e.run(j.i);
            TURN.store(0, Release);
        });
    }
    let j = Job { e: e as *mut Exec as *mut (), i };
    JOB.store(&j as *const Job as usize, Release);
    TURN.store(t as u32, Release);
    spin(|| TURN.load(Acquire) == 0);
}

/// Which thread runs which operation.
fn assignments(ops: &[Op], full: bool) -> Vec<Vec<usize>> {
    let n = ops.len();
    let mut v: Vec<Vec<usize>> = Vec::new();
    if full && n <= 9 {
        // all of them, up to renaming: the first operation runs here
        for m in 1..1usize << (n - 1) {
            v.push((0..n).map(|i| if i == 0 { 0 } else { m >> (i - 1) & 1 }).collect());
        }
        return v;
    }
    // one hasher per thread; every operation elsewhere than the one before; all from one
    // point on elsewhere
    v.push(ops.iter().map(|o| slot_of(o)).collect());
    v.push((0..n).map(|i| i % THREADS).collect());
    for c in 1..n {
        v.push((0..n).map(|i| (i >= c) as usize).collect());
    }
    v
}
fn slot_of(o: &Op) -> usize {
    use hist::Op::*;
    match o {
        One(i, ..) | New(i, ..) | Default(i, _) | Build(i, _) | BuildDefault(i, _) | Restore(i, ..) | Clone(i, _) | CloneFrom(i, _)
        | Move(i, _) | Drop(i) | Fin(i, _) | Shot(i, ..) | Check(i) | Pattern(i, _) | Feed(i, ..) | Finish(i)
        | Ckpt(i) | Debug(i) | DebugAt(i, _) | Flush(i) | Reclone(i) | CloneDrop(i) | CloneFin(i) | Hop(i, _) => *i,
    }
}

pub fn exec(cx: &mut Ctx, ops: &[Op]) {
    let ls = lines(ops);
    let mode = cx.p.get("threads");
    let mut plans = std::vec![std::vec![0; ops.len()]];
    match mode {
        Some("all") => plans.extend(assignments(ops, true)),
        Some(_) => plans.extend(assignments(ops, false)),
        None => {}
    }
    for plan in plans {
        let r: &[Op] = ops;
        unsafe {
            plat::CURRENT = Some((hist::render_ptr, &r as *const &[Op] as *const ()));
        }
        let mut e = Exec::new(ops, Oracle::Record, false);
        for i in 0..ops.len() {
            run_on(plan[i], &mut e, i);
        }
        unsafe { plat::CURRENT = None };
        let rec = core::mem::take(&mut e.record);
        drop(e);
        cx.evals += 1;
        let mut h = 1;
        for (_, x) in &rec {
            h = fnv(h, *x);
        }
        cx.outcomes.add(h);
        let mut st = h;
        for p in &plan {
            st = fnv(st, *p as u64 + 3);
        }
        cx.states.add(st);
        cx.digest = cx.digest.wrapping_add(h);
        for l in &ls {
            let sub: Vec<Op> = l.iter().map(|i| ops[*i].clone()).collect();
            let sub = tidy(&sub);
            let want = match alone(&sub) {
                Some(w) => w,
                None => {
                    cx.capped = true;
                    continue;
                }
            };
            let got: Vec<u64> = rec.iter().filter(|(i, _)| l.binary_search(i).is_ok()).map(|x| x.1).collect();
            if got != want {
                plat::differs("a hasher's results depend on what else is run", || {
                    format!(
                        "{}# thread of each operation: {:?}\n# observed by the operations {:?}: {:x?}\n# alone:                   {:x?}\n",
                        hist::render(ops), plan, l, got, want
                    )
                });
            }
        }
    }
    if cx.samples.len() < 3 && cx.evals % 97 == 5 {
        let mut t = hist::render(ops).replace('\n', "; ");
        t.truncate(400);
        cx.samples.push(t);
    }
}

/// In a projection the slot overwritten by `clone_from` is empty: a plain clone.
fn tidy(ops: &[Op]) -> Vec<Op> {
    ops.iter()
        .map(|o| match o {
            Op::CloneFrom(a, b) => Op::Clone(*a, *b),
            o => o.clone(),
        })
        .collect()
}
